#!/usr/bin/env python3
"""Source of properties.jsonl: edit here, run, commit both."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Journal records decode to exactly what was encoded",
 "Every journal record of every kind (put, embedded put, delete, range delete, end marker, wrap marker), with any field values, encodes to exactly the number of bytes it declares as its size. Decoding those bytes yields an equal record and consumes exactly that many bytes, whatever follows them.",
 ["inputs"],"all record kinds, all 64-bit lump ids, all 40-bit block addresses and 16-bit lengths, embedded payloads of any content (length bound stated in evidence)",
 "Tests encode one sample per kind; the fields have about 2^120 values and tag/length/byte-order faults show only at particular ones.",
 ["storage/journal/record.go","util/util.go","lump/lump.go"],
 [("WriteTo/ReadRecordFrom symmetry","storage/journal/record.go"),("big-endian integer helpers","util/util.go")],
 observe=["JournalRecord.WriteTo, ExternalSize, ReadRecordFrom"])
p("C02","A damaged or truncated journal record is refused, never misread",
 "Decoding arbitrary journal bytes never crashes: it returns either an error or a record. A record is returned only if its tag is known and the stored checksum equals the checksum recomputed over the rest of the record; a record cut short, or changed in any single byte other than the tag and length that say where it ends, yields an error.",
 ["inputs"],"every byte buffer up to the stated length, every truncation point and every single-byte change of every record",
 "Tests only decode bytes just encoded; corruption space (positions x values) is never visited.",
 ["storage/journal/record.go"],[("adler32 verification after decode","storage/journal/record.go ReadRecordFrom")],
 observe=["ReadRecordFrom result"])
p("C03","The journal's write buffer behaves like a plain byte-addressable device",
 "Through the journal's buffering layer, any sequence of seeks, unaligned writes, reads, flushes and syncs returns the same bytes, positions and counts as a flat array of bytes would. After a sync the underlying device holds exactly that array, and bytes never written through the buffer are never changed.",
 ["inputs","histories"],"every position, length and content (symbolic) over bounded sequences of operations on a device of a few sectors with arbitrary initial content",
 "Tests write a handful of fixed patterns forward; overlapping, backward and sector-crossing combinations are combinatorial.",
 ["storage/journal/nvm_buffer.go"],[("dirty write buffer / maybeDirty test","storage/journal/nvm_buffer.go Write, flushWriteBuffer, Read")],
 [("writeBuf/writeBufOffset/maybeDirty","pending bytes and where they belong","storage/journal/nvm_buffer.go")],
 ["JournalNvmBuffer Read/Write/Seek/Flush/Sync, underlying NonVolatileMemory"])
p("C04","The journal is a FIFO log at every position, across wrap-around and full",
 "Whatever the position of the oldest entry and whatever stale bytes the journal area holds, records appended are read back, after any number of wraps, exactly once, in order, with unchanged content and at the position where their payload is stored. An append refused because the journal is full leaves every earlier entry readable and a later append (after space is released) works normally; unreleased entries are never overwritten. The journal snapshot lists exactly these entries, each with its position.",
 ["inputs","histories"],"all head positions, record kinds and payload sizes, stale content, over bounded sequences of append/dequeue/release",
 "Ring tests use fixed record sizes and one wrap; the interaction of size, head and end-of-area has thousands of boundary cases.",
 ["storage/journal/ring_buffer.go"],[("Enqueue wrap and full check","storage/journal/ring_buffer.go Enqueue, checkFreeSpace"),("ReadIter / BufferedIter","storage/journal/ring_buffer.go")],
 [("head/unreleasedHead/tail","ring positions","storage/journal/ring_buffer.go")],
 ["ReadEntries/BufferedReadEntries/DequeueIter after reopen"])
p("C05","Replaying the journal rebuilds exactly the live index",
 "After any sequence of journaled put, embedded put, delete and range-delete operations, with garbage collection of the journal running at any point in between, reopening the journal rebuilds an index equal to the live one: same lump ids, each with the same location or the same embedded bytes. Garbage collection never loses a live entry and never brings back a deleted one.",
 ["histories","inputs"],"bounded operation sequences with symbolic lump ids, portions and embedded payloads, from any journal head position",
 "Tests replay one fixed sequence; GC interleavings with overwrite/delete/range delete and wrap-around are not sampled.",
 ["storage/journal/region.go","storage/journal/ring_buffer.go","lumpindex/lump_index.go","storage/storage.go"],
 [("RestoreIndex","storage/journal/region.go"),("gcOnce/isGarbage","storage/journal/region.go")],
 [("gcQueue","entries dequeued awaiting garbage decision","storage/journal/region.go")],
 ["LumpIndex after OpenJournalRegion+RestoreIndex"])
p("C06","After a crash the store recovers every synced operation",
 "If the process stops after any device write and the store is reopened from what reached the device, opening succeeds, and every put, delete or range delete completed before the last successful sync is in effect with its exact bytes. Operations after that sync are each either entirely in effect or not at all, as a prefix of the order in which they were issued, so a reader sees some complete value that was written, never a mixture or stale garbage.",
 ["crash_points","histories"],"every crash point between two device writes of bounded operation sequences (symbolic crash index, ids and data); device writes are atomic",
 "No test stops in the middle; crash points multiply with every device write.",
 ["storage/storage.go","storage/journal/region.go","storage/journal/ring_buffer.go","storage/journal/nvm_buffer.go","storage/data_region.go"],
 [("write-ahead journal: data before record, record flushed on sync","storage/storage.go put; storage/journal/region.go"),("head pointer in journal header","storage/journal/journal_header_region.go")],
 observe=["OpenCannylsStorage + Get on the crashed device image"])
p("C07","No two live lumps ever share a block, and none lies outside the data region",
 "Every portion handed out by a block allocator has exactly the requested number of blocks, lies wholly inside the data region, and is disjoint from every other portion currently allocated. This holds after any history of allocations, releases and restores, for each allocator implementation.",
 ["histories","inputs"],"any reachable free-list state (inductive step from arbitrary valid state of bounded fragments, plus bounded histories), symbolic request sizes and capacities",
 "Tests run a fixed script; overlap arises only from particular size/position combinations after fragmentation.",
 ["storage/allocator/allocator.go","storage/allocator/judy_allocator.go","portion/portion.go"],
 [("best-fit search and splitting","Allocate in both allocators"),("Release merge with neighbours","Release in both allocators")],
 observe=["DataPortionAlloc.Allocate/Release/RestoreFromIndex results"])
p("C08","Released space is fully reusable and free-space figures are exact",
 "A block allocator's free-block count always equals capacity minus the blocks of live portions, adjacent free space is always merged, and an allocation fails only when no contiguous free run of the requested length exists. Releasing a portion makes exactly its blocks available again; a request it cannot satisfy changes nothing.",
 ["histories","inputs"],"any reachable free-list state (bounded fragments), symbolic sizes; bounded alloc/release histories",
 "Leaks and missed merges show only in particular neighbour configurations; tests check totals after one script.",
 ["storage/allocator/allocator.go","storage/allocator/judy_allocator.go"],
 [("MergePortion / neighbour lookup","Release"),("UsedBlocks/FreeCount/MaxSegmentSize bookkeeping","both allocators")],
 observe=["FreeCount, MaxSegmentSize, Segments, Allocate error"])
p("C09","An allocator rebuilt from an index frees exactly the unused blocks",
 "Restoring an allocator from a lump index makes every block not covered by an indexed lump free, and no other: a block of an existing lump is never handed out and no unused block is lost, for any set of non-overlapping portions in any id order. Embedded lumps take no blocks.",
 ["inputs","configurations"],"any set of up to the stated number of disjoint portions (symbolic starts and lengths, empty and full regions included)",
 "Tests restore from one layout; gaps at start, end, zero-length gaps and ordering are configuration-dependent.",
 ["storage/allocator/allocator.go","storage/allocator/judy_allocator.go","lumpindex/lump_index.go"],
 [("RestoreFromIndex","both allocators"),("DataPortions/JudyDataPortions","lumpindex/lump_index.go")],
 observe=["Allocate/FreeCount after RestoreFromIndex"])
p("C10","The data region returns exactly the bytes stored, for every size",
 "Data of any size up to the maximum, stored in the data region, is read back with identical length and content, and its size can be queried. Storing uses exactly as many blocks as the data plus its trailing length field needs, and does not change a byte outside the portion it was given; data too large for a portion or without room is refused with no effect. All this whatever alignment the buffer has in which the data is given. A stored length field that can not be right is refused by every read.",
 ["inputs"],"all sizes 0..maximum lump size, all contents (symbolic byte array), any portion position",
 "Sector-boundary sizes (multiples of 512 minus 0..3) decide padding; tests try a few sizes.",
 ["storage/data_region.go","block/aligned_bytes.go","lump/lump.go"],
 [("trailing 2-byte padding size","storage/data_region.go Put/Get"),("aligned resize","block/aligned_bytes.go")],
 observe=["DataRegion.Put/Get/GetSize, device bytes outside the portion"])
p("C11","Partial reads and in-place updates touch exactly the requested byte range",
 "Reading length bytes at an offset of a stored lump returns exactly that slice of its content (cut at the end of the lump), or an error when the offset lies beyond it, never other bytes and never a crash. An in-place update replaces exactly the given range, leaving the rest of that lump, its length and all other data unchanged, and is refused when the range does not fit.",
 ["inputs"],"all lump sizes, offsets and lengths (32-bit symbolic), all contents",
 "Offsets not multiple of a sector and ranges ending near the lump end are a 3-dimensional boundary; tests try a few aligned offsets.",
 ["storage/data_region.go","storage/storage.go"],
 [("GetWithOffset / Update sector arithmetic","storage/data_region.go"),("embedded-lump slicing","storage/storage.go GetWithOffset")],
 observe=["Storage.GetWithOffset, PutWithOffset(update path)"])
p("C12","The store behaves as a map from lump id to bytes",
 "For any sequence of puts, embedded puts, gets, deletes and size queries, each result equals that of an ordinary map from lump id to byte string: the value last put, not-found for absent or deleted ids, and created/overwritten/deleted flags reported correctly. Values of other ids are never affected.",
 ["histories","inputs"],"bounded operation sequences with symbolic ids and contents on small stores with the real journal and allocator",
 "Tests run fixed scripts with one id pattern; aliasing of ids, overwrite of embedded by block data and conversely are not crossed.",
 ["storage/storage.go","lumpindex/lump_index.go"],[("put/Get/Delete on index + regions","storage/storage.go")],
 observe=["Storage.Put, PutEmbed, Get, Delete, GetSize return values"])
p("C13","Closing and reopening a store changes nothing observable",
 "After any bounded history of operations, closing (or syncing) and reopening the store yields the same ids, the same bytes and sizes per id, and the same counts, free space and ability to allocate as before. Reopening twice gives the same as reopening once.",
 ["histories","inputs"],"bounded operation sequences with symbolic ids/contents followed by close/open",
 "Tests reopen after one script; state derived on open (allocator, counts, journal positions) vs. live state differs only after particular histories.",
 ["storage/storage.go","storage/journal/region.go","storage/allocator/judy_allocator.go","nvm/header.go"],
 [("OpenCannylsStorage rebuild","storage/storage.go"),("RestoreIndex, RestoreFromIndex","journal, allocator")],
 observe=["Storage.List/Get/Usage before and after"])
p("C14","Range delete removes exactly the ids in the half-open range, durably",
 "Deleting the range [start,end) removes every lump with start <= id < end and no other, and frees exactly their blocks. The removal survives close and reopen, whatever garbage collection the journal performs while the delete is recorded.",
 ["inputs","histories"],"symbolic start/end and lump ids over the whole 64-bit space, bounded number of lumps, journal at any fill level",
 "Bounds equal to ids, empty and inverted ranges and GC during the delete are corner cases tests skip.",
 ["storage/storage.go","lumpindex/lump_index.go","storage/journal/record.go"],
 [("DeleteRange on index and journal","storage/storage.go, lumpindex/lump_index.go")],
 observe=["Storage.DeleteRange, List, Get after reopen"])
p("C15","Listing and id queries agree with the set of stored lumps",
 "Full and range listings return each stored id exactly once in ascending order (range end exclusive, at most the requested count), and minimum, maximum, count and first-free-id queries agree with the set of stored ids. An unused id returned is really unused: the id after the largest stored one or, when the largest possible id is stored, the smallest unused one.",
 ["inputs","histories"],"any set of up to the stated number of symbolic 64-bit ids including 0 and the maximum",
 "Extreme ids (0, 2^64-1), dense runs and empty stores need particular values.",
 ["lumpindex/lump_index.go","storage/storage.go"],
 [("judy array walks","lumpindex/lump_index.go")],
 observe=["List, ListRange, First/Min/Max, GenerateEmptyId"])
p("C16","Storage header survives a write/read cycle and lays regions out disjointly",
 "Any valid storage header written to a device is read back equal, and foreign magic numbers, versions, truncated or size-inconsistent headers are rejected with an error. The journal and data regions derived from a header are sector aligned, disjoint from each other and from the header, inside the device and of the declared sizes.",
 ["inputs","configurations"],"all header field values (version, block size, uuid, 64-bit region sizes), all corruptions of one field, all truncations",
 "Tests use one header; field width/byte order and layout arithmetic depend on values.",
 ["nvm/header.go","nvm/file.go","storage/storage.go"],
 [("WriteTo/ReadFrom header","nvm/header.go"),("SplitRegion","nvm/header.go")],
 observe=["StorageHeader.WriteHeaderRegionTo, ReadFrom, SplitRegion"])
p("C17","A device view confines every access to its own byte range",
 "Reads, writes and seeks on a device or on a view split from it act only on bytes inside that view at the offset requested, report the true counts and positions, and transfer data faithfully. Access out of range or unaligned is refused or shortened, never redirected to another view or past the device end; splitting yields two adjacent views that together cover the original.",
 ["inputs"],"all offsets, lengths and split points (symbolic 64-bit) on file-backed and memory-backed devices",
 "Boundary offsets beyond capacity and nested splits are not sampled; unsigned underflow needs special values.",
 ["nvm/file.go","nvm/memory.go","nvm/nvm.go"],
 [("view start/end arithmetic","nvm/file.go, nvm/memory.go")],
 observe=["NonVolatileMemory interface methods"])
p("C18","Aligned buffers keep their content and stay sector-aligned",
 "A buffer made for direct I/O starts at a sector-aligned address and has the requested length, and holding, growing, shrinking or aligning it preserves the leading bytes that remain and never overlaps other memory. Block-size rounding up and down yields the nearest multiple.",
 ["inputs"],"all lengths and capacities up to the maximum lump size, all source contents, every base-address residue the Go allocator can return",
 "Depends on the address the runtime returns; tests see only favourable ones.",
 ["block/aligned_bytes.go","block/block.go"],[("offset correction","block/aligned_bytes.go")],
 observe=["AlignedBytes.AsBytes/Len/Resize/AlignResize/Truncate, FromBytes"])
p("C19","A snapshot keeps showing the device as it was when taken",
 "After a snapshot is taken, reading through the snapshot returns, for every offset and length, the device bytes as of that moment, whatever is written to the live device afterwards; the live device shows the latest writes. Deleting the snapshot leaves the live device unchanged.",
 ["histories","inputs"],"symbolic write offsets/lengths/contents (aligned) in bounded sequences around snapshot creation, reads at any offset and length",
 "Copy-on-write boundaries (first write of a region, partial cover, overlapping writes) are combinatorial.",
 ["nvm/snapnvm.go"],[("copy-on-write before first overwrite","nvm/snapnvm.go WriteAt/Write"),("snapshot reader merge","nvm/snapnvm.go SnapshotReader")],
 observe=["SnapshotReader reads, live reads"])
p("C20","An existing snapshot is found again, unchanged, on reopen",
 "After the process stops and the device is reopened, a snapshot taken before is found again and still shows the device bytes of its creation time, and later writes keep preserving them. Creating a snapshot when one exists, or deleting one, is reflected correctly by the next open.",
 ["histories","crash_points"],"bounded write histories before/after reopening with symbolic offsets and contents",
 "Tests reopen in one directory with one write pattern; entry ordering and file-size arithmetic are value dependent.",
 ["nvm/snapnvm.go"],[("backing-file table reload","nvm/snapnvm.go OpenBackingFile"),("snapshot file discovery","nvm/snapnvm.go NewSnapshotNVM")],
 observe=["NewSnapshotNVM after restart, SnapshotReader"])
p("C21","Lump ids convert and order faithfully",
 "Converting a lump id to bytes or text and back gives the same id; byte forms order exactly as the ids do; malformed input is refused. Comparison is a total order agreeing with unsigned 64-bit order, and increment yields the next id.",
 ["inputs"],"all 64-bit ids, all byte inputs up to 8 bytes and all hexadecimal strings up to the stated length",
 "Ids at the extremes of the 64-bit range differ only in sign/length handling; tests use small ids.",
 ["lump/lump.go"],[("FromBytes/GetBytes/FromString/String/Compare","lump/lump.go")],observe=["LumpId methods"])
p("C22","Packed locations and integer codecs are lossless",
 "Packing a block location (40-bit start, 16- or 24-bit length) or a big-endian 16/32/40/64-bit integer and unpacking it returns the original values for every in-range value, and distinct values stay distinct. Adding to a location either gives the exact sum or is refused, never silently wrapped.",
 ["inputs"],"all field values",
 "Bit-width mistakes show only at high bits; tests use small numbers.",
 ["portion/portion.go","lumpindex/lump_index.go","util/util.go","address/address.go"],
 [("bit packing","portion/portion.go, lumpindex/lump_index.go"),("integer codecs","util/util.go")],observe=["portion accessors, index Get after Insert, util.Put*/Get*"])
p("C23","Usage figures always match what is stored",
 "At any time the reported number of lumps, free blocks/bytes and largest storable lump equal what the stored lumps imply: count of distinct ids, data capacity minus blocks in use, and the largest free run; the journal's usage is what its unreleased entries take; the allocation map shows, per 4 MiB of the data region, the fraction in use. They are the same whether reached by live operations or after reopening.",
 ["histories","inputs"],"bounded operation histories including overwrites and deletes of absent ids",
 "Counters drift only on overwrite/absent-delete/empty/full histories; tests compare one script.",
 ["storage/storage.go","lumpindex/lump_index.go","storage/allocator/judy_allocator.go"],
 [("counters kept incrementally","lumpindex/lump_index.go, allocators")],observe=["Storage.Usage"])
p("C24","Device errors surface and never corrupt what was already stored",
 "If a device read, write or sync fails at any point, the operation that needed it reports an error rather than success and does not crash (a sync, which has no result, stops the process rather than pass as done), and leaves every other lump with its previous content; the affected lump has its old or its new value. No operation that returned success is lost by reopening afterwards once the device works again and a sync succeeded.",
 ["fault_sequences","histories"],"one device failure at every possible device access of bounded operation sequences (symbolic fault index)",
 "No test injects device failures.",
 ["storage/storage.go","storage/data_region.go","storage/journal/nvm_buffer.go","storage/journal/ring_buffer.go","storage/journal/region.go"],
 [("error propagation","all I/O call sites")],observe=["Storage API errors and later Get"])
p("C25","Concurrent use neither deadlocks nor loses operations",
 "Storage operations issued from several goroutines all complete, for every interleaving, without a data race, and their results and the lumps left behind equal those of the operations made one after the other in some order; a snapshot taken or read next to other operations has the lumps before or after each of them, whole. Calls after Close report that the store is closed. (Not promised: the figures of Usage are read one by one; a put may be told the store is full because of blocks another put is about to give back.)",
 ["schedules","inputs"],"all interleavings with bounded preemptions of two (thorough: three) goroutines making one public call each, for all contents; every pair of state-changing call and call",
 "Lock-order inversions, early unlocks and unprotected accesses need one particular schedule; the tests start no second goroutine on a store.",
 ["storage/storage.go","lumpindex/lump_index.go"],[("index, journal and allocator locks","storage/storage.go, storage/data_region.go, nvm/snapnvm.go")],observe=["Storage public API from 2 or 3 goroutines"])
p("C26","A refused operation leaves the store exactly as it was",
 "When a put, embedded put, update, delete or range delete is refused (data too large, data region full, journal full), an error is returned and every lump, including the one addressed, keeps its previous value, now and after reopening; free space is not lost.",
 ["inputs","histories"],"symbolic sizes (including beyond the maximum), stores at every fill level of small data and journal regions",
 "Tests of full storage check only that an error appears; what remains is not compared.",
 ["storage/storage.go","storage/data_region.go","storage/journal/ring_buffer.go","storage/journal/region.go"],
 [("order of delete-old / write-new / journal","storage/storage.go put")],observe=["Storage API errors, then Get/Usage and reopen"])
p("C27","Enlarging a store keeps all its contents",
 "Growing a store's data region keeps every lump's id and bytes, makes at least the added space allocatable, and the result opens normally; a request to shrink or an invalid size changes nothing. A snapshot taken before shows the store as it was. When success is reported the new size is on the device.",
 ["inputs","configurations"],"symbolic old/new sizes and stored contents in small stores",
 "Only exercised by hand through the command-line tool.",
 ["cmd/kanils/main.go","nvm/header.go","storage/storage.go"],[("header rewrite","cmd/kanils/main.go")],observe=["kanils resize then open"])
p("C28","The command-line tool stores, shows and deletes exactly what it is told to",
 "Each kanils command opens, uses and closes the store so that the next command finds it: Put stores exactly the bytes given on the command line or in the file named, of any size and however the file is read, Get and Delete affect only the key given, the inspecting commands (Dump, Journal, JournalGC, Header) change no lump, Create makes a store of the capacity asked for (in whole blocks) and refuses to overwrite one. Every command ends, and reports failure when it could not do what was asked.",
 ["inputs","configurations"],"symbolic keys and contents, files of several sizes read in pieces of any length",
 "The command-line tool has no tests.",
 ["cmd/kanils/main.go"],[("command actions","cmd/kanils/main.go createCannyls, putCannyls, getCannyls, deleteCannyls, dumpCannyls, readUpData")],observe=["errors returned by the commands, content of the store afterwards"])
p("C29","A store is used by one opener at a time",
 "While a store is open, every attempt to open it again, to create a store or device in its place, or to run a changing command on it fails, changes nothing on the device, and is not noticed by the one who has it open. Of attempts made at the same moment at most one gets the store, and it sees what the store then holds. Once it is closed (or its process has stopped) it can be opened. An attempt to open or create which fails, for whatever reason, leaves the store as it was and free for the next attempt.",
 ["histories","fault_sequences","inputs"],"every kind of second opener at every point of short histories; failing attempts with a device fault at any access",
 "The tests open each store once at a time; a leaked lock, descriptor or half-made file shows only on the attempt after a failed one.",
 ["nvm/file.go","nvm/nvm_linux.go","storage/storage.go","cmd/kanils/main.go"],[("lockFileWithExclusiveLock","nvm/file.go Open, CreateIfAbsent"),("error paths of opening and creating","storage/storage.go OpenCannylsStorage, CreateCannylsStorage")],observe=["errors of a second open or create, contents afterwards"])
p("C30","What was synced survives a power failure",
 "A power failure may undo any of the device writes made since the last sync, whatever their order (each whole or not at all). The store then opens again as it was after some operation not before the last successful sync, close or creation: the lumps stored by then have their exact bytes and later puts, deletes and range deletes are in effect up to some point in their order (a lump put after that sync may have lost its bytes, not those of others). A snapshot taken before is found and shows the bytes of its time.",
 ["crash_points","fault_sequences","histories"],"symbolic stop at every device write or sync of bounded histories, with every subset of the writes not yet synced lost",
 "No test takes away what was not synced; without a sync at the right place everything works until the power fails.",
 ["storage/storage.go","storage/journal/region.go","storage/journal/ring_buffer.go","storage/journal/journal_header_region.go","storage/journal/nvm_buffer.go","nvm/file.go","nvm/snapnvm.go"],
 [("syncs between the journal entries, the journal head and what is written over","storage/journal"),("BackingFile.WriteOffset","nvm/snapnvm.go")],observe=["OpenCannylsStorage after the failure, then List/Get/Usage; GetSnapshotReader"])
p("C31","The HTTP service does what it is asked and acknowledges only what is durable",
 "An upload answered with success is stored, byte for byte, under the id given or under one not in use before, and is on the device when the answer is sent; uploads at the same moment do not mix. A fetch serves the bytes stored or an error; taking a lump out serves one lump and removes that one. A backup holds the store as it was when it began, whatever happens meanwhile; a second one does not disturb it. Refused requests, device errors during a backup and a full store change nothing and leave the service running. When the service has been told to end the store opens with all of it.",
 ["inputs","histories","fault_sequences"],"symbolic contents, every short sequence of requests, two at once, changes at points of a backup, device faults during it",
 "The service has no tests.",
 ["cmd/readup/main.go","util/stopper.go"],[("worker loop, handlers and shutdown","cmd/readup/main.go ServeStore")],observe=["answers to requests, writes not synced at the time of an answer, backup files, the store after the service has ended"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
