AI = "abstract interpretation of the compiler's IR (relational numeric domain, summarised loops)"
NOTE = ("Sound static argument for all inputs of the analysed template instantiations; trusts the clang front end/LLVM scalar passes, "
        "the analyser in /verif/engine and the obligations in /verif/harness. ")

prop("D01", "Accepted pointers lie wholly inside the buffer",
     "When a bounds-limited deserialisation accepts a non-null pointer (absolute or relative) together with an extent, the whole extent lies inside the supplied buffer and the pointer is aligned for its type, for every 64-bit address, relative offset and size, without arithmetic wrap-around. "
     "Conversely no aligned, in-range pointer is rejected.",
     ["inputs"], "all addresses, offsets, sizes and buffer bounds; every pointee alignment class, both pointer modes",
     "tests use a handful of well-formed and slightly corrupted images; the wrap-around corner cases need extreme 64-bit values",
     ["include/cista/serialization.h"], [("check_ptr overloads", "include/cista/serialization.h"), ("checked_addition", "include/cista/serialization.h")],
     technique=AI, level="proof", note=NOTE + "Buffers are assumed to lie in the lower half of the address space for the no-false-rejection half.")
prop("D02", "Accepted vector images are self-consistent",
     "After a successful bounds-checked deserialisation of a vector image, the vector does not own its storage, its capacity equals its size, its storage is null exactly when it is empty, and all elements (size times element size) lie aligned inside the buffer. Every image satisfying this is accepted.",
     ["inputs"], "all byte patterns of the vector header and all buffer bounds; raw and offset modes, several element types and size types",
     "tests flip a few fields; sizes whose byte extent wraps are not reachable by sampling",
     ["include/cista/serialization.h", "include/cista/containers/vector.h"], [("check_state/recurse(basic_vector)", "include/cista/serialization.h")],
     technique=AI, level="proof", note=NOTE)
prop("D03", "Accepted string images are self-consistent",
     "After a successful bounds-checked deserialisation, a string or string view is either short (inline, content inside the object) or long, non-owning and with all its characters inside the buffer, for every character width. Well-formed string images are accepted.",
     ["inputs"], "all byte patterns of the string object and all buffer bounds; char, char16_t, char32_t, raw and offset modes",
     "tests cover single corruptions of valid images only",
     ["include/cista/serialization.h", "include/cista/containers/string.h"], [("check_state/recurse(generic_string, basic_string)", "include/cista/serialization.h")],
     technique=AI, level="proof", note=NOTE)
prop("D04", "Accepted unique-pointer images are in range and non-owning",
     "After a successful bounds-checked deserialisation of an owning pointer, the pointer is non-owning and null, or its whole pointee lies aligned inside the buffer.",
     ["inputs"], "all byte patterns and buffer bounds, raw and offset modes",
     "tests sample a few images", ["include/cista/serialization.h", "include/cista/containers/unique_ptr.h"],
     [("check_state(basic_unique_ptr)", "include/cista/serialization.h")], technique=AI, level="proof", note=NOTE)
prop("D06", "Accepted discriminators are valid",
     "After a successful bounds-checked deserialisation, the active-alternative index of a variant names an existing alternative, and the engaged flag of an optional is a proper boolean.",
     ["inputs"], "all byte patterns of the discriminator",
     "tests use valid discriminators or one corrupted value", ["include/cista/serialization.h", "include/cista/containers/variant.h", "include/cista/containers/optional.h"],
     [("check_state(variant/optional)", "include/cista/serialization.h")], technique=AI, level="proof", note=NOTE)
prop("D05", "Accepted hash-container images have their storage inside the buffer",
     "After a successful bounds-checked deserialisation of a hash set or map image, the container does not own its storage and all of its control bytes (capacity + 1 + group width) lie inside the buffer. It has entry storage exactly when it is not empty with zero capacity, and then all entry slots lie aligned inside the buffer and the control bytes directly follow the last slot, without arithmetic wrap-around for any capacity.",
     ["inputs"], "all byte patterns of the container header and all buffer bounds; several entry types, raw and offset modes",
     "tests flip single bytes of one valid image; capacities whose byte extent wraps need specific 64-bit values",
     ["include/cista/serialization.h", "include/cista/containers/hash_storage.h"], [("check_state(hash_storage)", "include/cista/serialization.h")],
     technique=AI, level="proof", note=NOTE)
prop("D07", "Every part of an accepted image is itself visited and checked",
     "Deserialisation visits every element of a vector, indexed vector or array in order and exactly once, every member of an aggregate (1 to 64 members), pair, tuple or composite container exactly once, the value of an optional exactly when it is engaged, exactly the active alternative of a variant, and the pointee of an owning pointer exactly when it is not null, applying the conversion and the checks registered for the part's type.",
     ["inputs"], "all images and buffer bounds; every container kind listed, nested aggregates",
     "a test image whose unvisited part happens to be benign looks the same as a visited one",
     ["include/cista/serialization.h", "include/cista/reflection/for_each_field.h", "include/cista/reflection/to_tuple.h"],
     [("deserialize/recurse overloads", "include/cista/serialization.h")], technique=AI, level="proof", note=NOTE)
prop("D08", "Deserialisation opens only images passing version and checksum gates",
     "With a version requested, an image is accepted only if the stored type version equals the reader's; with integrity requested, only if the stored checksum equals the digest, from the fixed seed, over exactly all bytes after the header. In every mode the image is accepted only if it extends beyond its header, and (unless unchecked) the whole root object lies inside the buffer; skip flags keep the payload position. The root object is taken from the first position behind the header that is aligned for its type.",
     ["inputs", "configurations"], "all buffers and all supported combinations of the version, integrity, skip, endian, deep and unchecked flags (10 combinations analysed)",
     "tests corrupt a single byte of one image per mode", ["include/cista/serialization.h", "include/cista/mode.h"],
     [("check<T, Mode>, data_start, deserialize<T, Mode>", "include/cista/serialization.h")], technique=AI, level="proof",
     note=NOTE + "The digest is an opaque function here (xxh3 stub with a recording model).")
prop("D09", "Absolute pointers are relocated exactly",
     "In raw mode, deserialising a stored relative distance turns it into the pointer that lies exactly that signed distance from the pointer's own position, and the stored null marker into null, for plain pointers, pointers inside aggregates, vectors, strings, owning pointers and hash containers, in native and big-endian images, checked and unchecked.",
     ["inputs"], "all stored 64-bit distances and positions", "tests only see distances produced by the serializer for small objects",
     ["include/cista/serialization.h"], [("deserialization_context::deserialize_ptr", "include/cista/serialization.h")], technique=AI, level="proof",
     note=NOTE + "The pointee is assumed not to overlap the pointer slot itself.")
prop("D11", "Big-endian images are converted exactly once per scalar",
     "When a big-endian image is deserialised on a little-endian host, every multi-byte scalar (integers, characters, durations, time points, bit blocks, container sizes) is byte-reversed exactly once, wherever it is nested: in aggregates, pairs, tuples, arrays, optionals, variants, vectors, strings, pointees and the bookkeeping fields of containers; single bytes are unchanged.",
     ["inputs"], "all values of all analysed scalar kinds and nestings",
     "round-trip tests cannot see a field that is swapped neither when writing nor when reading, and sample few values",
     ["include/cista/serialization.h", "include/cista/endian/conversion.h"], [("convert_endian_and_ptr overloads", "include/cista/serialization.h")],
     technique=AI, level="proof", note=NOTE)
prop("S01", "Written container headers designate exactly the container's content",
     "When a vector, string, owning pointer or hash container is serialised, its image never claims ownership, stores the true element count as size and capacity, and stores a distance that designates the block holding exactly its elements (or characters, or entries followed by all control bytes), appended once with sufficient alignment; empty containers store the null marker. Short strings and string views keep their characters, and nothing outside the container's own header is written.",
     ["inputs"], "all container states within the 48-bit address space, all image positions; raw and offset containers, native and big-endian, 32- and 64-bit sizes, three character widths",
     "round-trip tests use small containers with one element type; a wrong size, alignment or distance that still lands on readable bytes goes unnoticed",
     ["include/cista/serialization.h", "include/cista/containers/vector.h", "include/cista/containers/string.h", "include/cista/containers/hash_storage.h"],
     [("serialize overloads for containers", "include/cista/serialization.h")], technique=AI, level="proof", note=NOTE + "The output target is a recording model.")
prop("S02", "Every part of an object is serialised exactly once, at its own place",
     "Serialising an aggregate (any supported number of members), pair, tuple, array, vector, engaged optional, active variant alternative, or a composite container (bit vector, matrix, multimap, paged and nested vectors) serialises each contained part exactly once at the part's offset within its owner, and appends no extra block. In big-endian images every multi-byte scalar part, counts and discriminators included, is written byte-reversed.",
     ["inputs"], "all object states and image positions; aggregates of 1 to 64 members",
     "a part that is skipped or written elsewhere still round-trips when its raw bytes need no patching",
     ["include/cista/serialization.h", "include/cista/reflection/for_each_field.h", "include/cista/reflection/to_tuple.h", "include/cista/reflection/arity.h"],
     [("serialize<Ctx, T> dispatch", "include/cista/serialization.h"), ("to_tuple", "include/cista/reflection/to_tuple.h")], technique=AI, level="proof", note=NOTE)
prop("S03", "Every serialised pointer designates its target's image or is null",
     "When a pointer or offset pointer is serialised, its slot receives exactly the signed distance from the slot to the image of the pointee (object start, registered vector element, or interior position), null stays the null marker, and a pointee whose image is not known yet is remembered with its slot and resolved after the whole graph is written. A pointee that is never written leaves the null marker: no slot ever designates anything but its pointee's image. (A pointer to void carries no type and is stored as null.)",
     ["inputs", "histories"], "all pointer values, slots, registered objects and element ranges (any content of the lookup tables)",
     "which branch is taken depends on the order in which objects are met; tests sample a few small graphs",
     ["include/cista/serialization.h"], [("resolve_pointer, serialize(ptr/offset_ptr), pending offsets", "include/cista/serialization.h")],
     technique=AI, level="proof", note=NOTE + "The three lookup tables of the context are replaced by nondeterministic models obeying their interface.")
prop("S04", "A written image has its header, root and checksum in the order readers expect",
     "Serialising a root object writes the version hash (if requested) first, then room for the checksum (if requested), then the root object at the first position behind the header that is aligned for it. After the whole graph is written, every late pointer is resolved; then the checksum is taken over exactly the bytes after the header and stored in its slot, in the requested byte order.",
     ["inputs", "configurations"], "all combinations of version, static version, integrity and byte order analysed; every root object and target state",
     "a checksum taken one write too early only fails when the late write changes the image (pending pointers)",
     ["include/cista/serialization.h"], [("serialize<Mode>(Target&, T&)", "include/cista/serialization.h")],
     technique=AI, level="proof", note=NOTE + "Target and digest are recording models.")
prop("I01", "The in-memory target appends and patches exactly the requested bytes",
     "Appending a block to an in-memory target returns an offset that is at least the old end, satisfies the requested alignment, lies less than one alignment after the old end, and grows the target to exactly offset plus size with the block copied there and earlier bytes kept; patching at a position writes exactly the value's bytes inside the target or fails; the checksum covers exactly the bytes from the given start.",
     ["inputs"], "all sizes, alignments, positions and buffer addresses, including storage that moves while growing",
     "tests use small buffers at well aligned heap addresses; wrapped positions and moves need specific values",
     ["include/cista/targets/buf.h"], [("buf::write, buf::checksum", "include/cista/targets/buf.h")], technique=AI, level="proof",
     note=NOTE + "The byte container is a model whose storage may move on growth; its base is assumed to be aligned at least as the blocks are.")
prop("I02", "The file target puts every byte at its place and surfaces every failure",
     "Appending to a file target writes the whole block at the aligned end position returned to the caller, patching writes exactly the value's bytes at the position, reading back and checksumming cover the file from the requested start in order without gaps, and any seek, read or write that fails or is short makes the operation fail.",
     ["inputs", "faults"], "all sizes, alignments, positions and file sizes; a failure or short transfer at every system call",
     "tests never make a file operation fail and use small files",
     ["include/cista/targets/file.h", "include/cista/chunk.h"], [("file::write/content/checksum", "include/cista/targets/file.h"), ("chunk", "include/cista/chunk.h")],
     technique=AI, level="proof", note=NOTE + "The C library's file functions are modelled (POSIX variant; the Windows variant is not compiled here).")
prop("I03", "Files and mappings are released exactly once and mapped files keep the used size",
     "Every opened file is closed exactly once and every mapping unmapped exactly once, in full, whatever moves, self-moves and assignments happen in between. A mapping never claims more bytes than its file has, a file is never cut below a live mapping, resizing yields at least the requested bytes, failures are reported, and a writable mapped file ends with exactly the used number of bytes.",
     ["inputs", "histories", "faults"], "all sizes; a failure at every system call; move construction, move assignment and self-move of files and mappings in any state",
     "leaks and partial unmapping are invisible to functional tests; failing system calls are never exercised",
     ["include/cista/mmap.h", "include/cista/targets/file.h"], [("mmap", "include/cista/mmap.h"), ("file", "include/cista/targets/file.h")],
     technique=AI, level="proof", note=NOTE + "System calls are modelled; one operation from an arbitrary valid state stands for all histories (inductive).")
prop("C01", "Relative pointers keep their target whatever is done to them",
     "A relative pointer designates the same target after copying, moving, assigning (itself included) and being relocated to another address; null is a distinct stored marker that survives every operation. Arithmetic, comparison, indexing and dereferencing agree with the corresponding raw pointers, increments and decrements step by one element and postfix forms return the old value.",
     ["inputs"], "all 64-bit positions and targets in the user address space; object and void pointees",
     "tests use adjacent stack and heap objects; a copy that keeps the distance instead of the target only fails when both addresses differ in a way the test reads back",
     ["include/cista/containers/offset_ptr.h", "include/cista/containers/ptr.h"], [("offset_ptr", "include/cista/containers/offset_ptr.h")], technique=AI, level="proof", note=NOTE)
prop("C02", "Vectors construct, destroy and free exactly what they own",
     "After every operation a vector's elements are exactly size() living objects at the start of its storage; every element is constructed once, never used after its end and destroyed once. Storage is freed exactly when owned, never with living elements in it; elements of an image are never freed. Elements inserted or appended may be elements of the vector itself; sizes that do not fit fail instead of wrapping; positions returned and accessed are the designated ones; a checked access outside of the size fails.",
     ["inputs", "histories", "faults"], "every size and capacity, every position and count; owning, image-backed and empty vectors in all combinations of operand states; exhausted memory. One operation from an arbitrary valid state stands for all histories. Inserting a forward range is decided for ranges as long as the tail, for appended ranges and for small combinations of range and tail",
     "tests use element types for which a missing destructor or a stale reference goes unnoticed, and sizes far from the limits of the size type",
     ["include/cista/containers/vector.h", "include/cista/next_power_of_2.h"], [("basic_vector", "include/cista/containers/vector.h")], technique=AI, level="proof",
     note=NOTE + "malloc and free are modelled; std::rotate is assumed to permute living elements.")
prop("C03", "Strings hold the assigned text and free exactly what they own",
     "After construction from or assignment of a text a string has exactly its length and characters: short texts are stored in place, longer ones in storage of the string's own when it owns, or referred to where they are when it is a view. Storage is freed exactly once and only when owned; copies and moves between any two strings, a string and itself included, and assigning a part of the string to itself give the source's text and lose nothing; a moved-from string does not keep the storage. No character is read or written outside of the texts and objects involved; erasing keeps exactly the other characters and leaves the text a view refers to alone; zero-terminated strings stay terminated; comparing the start or the end compares exactly the characters meant; texts too long for the size type are rejected.",
     ["inputs", "histories", "faults"], "every text length (short ones: 0 to 15 characters by representative lengths, longer ones symbolically up to and beyond the size type), every combination of operand states (empty, in place, owned, view); char and char16_t, plain and offset pointers; failing allocation. One operation from an arbitrary valid state. Characters of short texts are non-zero: a short string ends at its first zero character",
     "tests assign literals; a stale reference or lost storage needs overlapping sources or particular states, a wrapped length needs 4 GiB texts",
     ["include/cista/containers/string.h", "include/cista/containers/cstring.h"], [("generic_string", "include/cista/containers/string.h"), ("generic_cstring", "include/cista/containers/cstring.h")], technique=AI, level="proof",
     note=NOTE + "malloc, free, memcpy, memmove, memset, memchr, memcmp and strlen are modelled.")
prop("C04", "Owning pointers destroy and free their object exactly once",
     "An owning pointer destroys and frees the object it owns exactly once, on destruction, reset, or replacement by move assignment, and never an object it does not own (one inside an image). Moving transfers the object together with its ownership and leaves the source empty; moving a pointer onto itself keeps the object; release hands the object over without destroying it.",
     ["inputs", "histories"], "every combination of empty, owning and non-owning operands, raw and offset; one operation from an arbitrary valid state",
     "tests do not count destructor and free calls for image-backed objects",
     ["include/cista/containers/unique_ptr.h"], [("basic_unique_ptr", "include/cista/containers/unique_ptr.h")], technique=AI, level="proof", note=NOTE)
prop("C05", "Optionals hold a living value exactly when they are engaged",
     "An optional contains a constructed value exactly when it reports having one: construction, copying, moving and assigning between every combination of empty and engaged optionals (itself included) construct, assign or destroy the value accordingly, the value is that of the source, it is destroyed exactly once, and reading the value of an empty optional through value() fails.",
     ["inputs", "histories"], "every combination of operand states and values; one operation from an arbitrary valid state",
     "a missed destructor or an assignment to raw storage is invisible for the trivially copyable values tests use",
     ["include/cista/containers/optional.h"], [("optional", "include/cista/containers/optional.h")], technique=AI, level="proof", note=NOTE)
prop("C06", "Variants hold exactly the alternative they report",
     "A variant contains one living object, of the alternative its index names, or none when it is valueless: construction, emplacement, copying, moving, assigning and swapping between every combination of alternatives destroy the old object and construct or assign the new one exactly once, with the source's value. Access by type or index yields the object exactly for the active alternative; visiting calls the function once, for the active alternative, for every number of alternatives; comparison orders by index, then value.",
     ["inputs", "histories"], "every combination of active alternatives (none included) and values; one operation from an arbitrary valid state; 3 alternatives for life times, up to 40 for visiting",
     "tests do not track life times and stay within a few alternatives",
     ["include/cista/containers/variant.h"], [("variant, apply", "include/cista/containers/variant.h")], technique=AI, level="proof", note=NOTE)
prop("C07", "Hash tables own their storage and every entry in it",
     "A slot of a hash map or set holds a living entry exactly if its control byte says it is full, at every point where user code (copying a key, constructing a mapped value) may throw and after every operation: inserting, looking up by operator[], erasing, growing, clearing, moving, assigning and destroying construct and destroy each entry exactly once and release owned storage exactly once; storage of a buffer the table was deserialised from is never released. The number of entries and free slots follows the insertions and erasures; a table that fails to grow keeps everything it had; a moved-from or cleared table is empty and does not own anything.",
     ["inputs", "histories"], "every capacity for ownership, destruction and growing (growing to 7 and 1023 slots), every slot, hash and comparison outcome, every size; insertion and erasure at 7 and 1023 slots; one operation from an arbitrary valid state, failing allocations included",
     "tests neither count constructions and destructions nor let an allocation fail or a key throw; a slot destroyed twice or never is invisible for the types they store",
     ["include/cista/containers/hash_storage.h"], [("hash_storage", "include/cista/containers/hash_storage.h")], technique=AI, level="proof", note=NOTE)
prop("C08", "Bit containers address exactly the bits asked for",
     "Setting, clearing, testing, combining, complementing, shifting, resizing, counting, comparing and enumerating the bits of a bit set or bit vector act on exactly the bits asked for, whatever its words contained before: other bits keep their value, bits behind the end (left over in the last word) are never seen, and bits that come into existence are not set.",
     ["inputs"], "all contents of all words (also behind the end); sizes 1, 33, 64, 65, 128, 130; bit positions at and around word borders; shift distances at and around 0, word borders and the size",
     "tests sample a few contents; errors at word borders and in the unused bits of the last word need particular sizes, distances and contents",
     ["include/cista/containers/bitset.h", "include/cista/containers/bitvec.h", "include/cista/bit_counting.h"], [("bitset", "include/cista/containers/bitset.h"), ("basic_bitvec", "include/cista/containers/bitvec.h")], technique=AI, level="proof", note=NOTE)
prop("A01", "Atomic updates never lose another thread's update",
     "Atomically setting or clearing a bit, fetch_or, fetch_and, fetch_min, fetch_max and claiming set bits by get_next access the shared value by atomic operations only; whatever other threads do between any two of them, each update is performed exactly once on the value current at that time, returns the value it replaced and hands out no bit twice.",
     ["schedules", "inputs"], "every interference by other threads between any two accesses to the shared value, spurious failures included; all values and masks; listed bit positions; get_next on bit vectors of one word (1, 2, 63, 64 bits)",
     "no test runs them concurrently; a lost update needs another thread's write at one particular point",
     ["include/cista/atomic.h", "include/cista/containers/bitvec.h"], [("fetch_or, fetch_and, fetch_min, fetch_max", "include/cista/atomic.h"), ("set<true>, get_next", "include/cista/containers/bitvec.h")], technique=AI, level="proof", note=NOTE)
prop("C09", "Probing and iterating a hash table miss no slot",
     "Whatever the control bytes contain: comparing a group finds every slot with the wanted hash and exactly the empty and the free ones; a probe sequence visits every slot before it repeats, starts and stays inside of the table and sees the current state of every slot also where it wraps around; an erased slot only becomes empty if no probe can have passed it; iterating reaches the next entry and skips nothing else; a full enough table grows before a search could run forever.",
     ["inputs"], "all contents of a control group for every position and byte value; all 256 match masks; storing at every slot of tables with 1 to 31 slots; probe sequences of every hash for 1 to 63 slots (127 to 511: hashes with four different low parts); runs of up to 24 free slots; all capacities",
     "tests look up a few keys with few hash functions; a slot that is missed needs a particular combination of hash, wrap-around and neighbouring slots",
     ["include/cista/containers/hash_storage.h", "include/cista/bit_counting.h"], [("group, bit_mask, probe_seq, set_ctrl, was_never_full, skip_empty_or_deleted", "include/cista/containers/hash_storage.h")], technique=AI, level="proof", note=NOTE)
prop("I04", "Rounding and bit counting are right for every value",
     "The next power of two of any number is a power of two, not below it, and less than twice of it; rounding up yields the next multiple; the numbers of leading and trailing zeros name the highest and lowest bit that is set.",
     ["inputs"], "all 8, 16, 32 and 64 bit numbers whose next power of two is representable; all 32 and 64 bit words; all 64 bit numbers and ten multiples",
     "capacities, growth, page sizes and probe masks rest on them; tests only reach small numbers",
     ["include/cista/next_power_of_2.h", "include/cista/bit_counting.h", "include/cista/aligned_alloc.h"], [("next_power_of_two", "include/cista/next_power_of_2.h"), ("trailing_zeros, leading_zeros", "include/cista/bit_counting.h"), ("to_next_multiple", "include/cista/aligned_alloc.h")], technique=AI, level="proof", note=NOTE)
prop("C10", "Nested vectors and matrices address exactly the elements of each bucket",
     "A bucket of a vecvec or nvec, a row of a matrix and an entry of a multimap begin, end and yield exactly their own elements; checked access accepts an index exactly if it exists; adding, growing and resizing buckets keeps the borders and elements of all others.",
     ["inputs"], "all borders, sizes and indices, for 16 and 32 bit (strong) keys; all changes of any of three buckets; rows of 0 to 5 columns; up to three levels",
     "tests look at a few buckets with a few elements; a border that is one off for empty or last buckets, or an index behind the last one, does not show there",
     ["include/cista/containers/vecvec.h", "include/cista/containers/nvec.h", "include/cista/containers/flat_matrix.h", "include/cista/containers/fws_multimap.h"],
     [("basic_vecvec, bucket, const_bucket", "include/cista/containers/vecvec.h"), ("basic_nvec, meta_bucket", "include/cista/containers/nvec.h"), ("base_flat_matrix", "include/cista/containers/flat_matrix.h"), ("fws_multimap, fws_multimap_entry", "include/cista/containers/fws_multimap.h")], technique=AI, level="proof", note=NOTE)
prop("C11", "Buckets of a growing multimap never share elements and keep their own",
     "Buckets of a mutable multimap own disjoint parts of its data, free parts are owned by no bucket and listed once, a bucket that grows takes its elements along, and every operation changes the elements and counts of its own bucket only.",
     ["histories"], "any state of a bucket, another one and the free parts (one step of any history), full, partly filled and empty buckets with room for up to 8; elements of the multimap itself as arguments; data that moves when it grows",
     "which part a bucket gets depends on which others grew and were erased before: tests only run a few such histories",
     ["include/cista/containers/mutable_fws_multimap.h"], [("grow_bucket, release_bucket, get_free_bucket", "include/cista/containers/mutable_fws_multimap.h"), ("bucket: push_back, insert, erase, resize", "include/cista/containers/mutable_fws_multimap.h")], technique=AI, level="proof", note=NOTE)
prop("C12", "Pages of a paged vector are never shared and keep their elements",
     "Every bucket of a paged vector has a page of its own that is big enough; a page that is left or removed becomes free exactly once and a free one of the right size is used first; buckets that grow, are inserted or resized keep their elements and those of all others; too big pages are rejected.",
     ["histories"], "three buckets with pages of 0 to 8 elements, empty, partly filled and full; 0, 1 or 2 free pages of the same, the next and another size; arbitrary elements; elements of the vector itself as arguments; data that moves when it grows",
     "which page a bucket gets depends on the history of pages that were freed: tests run a few",
     ["include/cista/containers/paged.h", "include/cista/containers/paged_vecvec.h"], [("create_page, resize_page, free_page, node", "include/cista/containers/paged.h"), ("paged_vecvec, bucket", "include/cista/containers/paged_vecvec.h")], technique=AI, level="proof", note=NOTE)
N = dict(technique=None, level=None, note=None)
prop("N01", "Serialising and deserialising any object graph yields an equal graph",
     "For every object graph of supported types, deserialising its serialised image yields a graph equal to the original, sharing and cycles included.",
     ["inputs"], "all object graphs of any shape and size", "tests round-trip a few dozen graphs",
     ["include/cista/serialization.h"], [("serialize, deserialize", "include/cista/serialization.h")],
     na="quantifies over unbounded, heap-allocated graphs: equality of whole graphs is outside of a numeric abstract domain. Its local constituents (every part written once at its place, every pointer designating its target's image, every part visited, converted and relocated once) are decided per type by S01-S04, D07, D09, D11.")
prop("N02", "Hash containers behave like a mathematical map",
     "After any sequence of insertions, lookups, erasures and rehashes a hash map or set contains exactly the entries inserted and not erased, each once, and finds each of them.",
     ["histories"], "all histories, hash functions and key sets", "tests sample sequences with a few keys and hash functions",
     ["include/cista/containers/hash_storage.h"], [("find, prepare_insert, resize", "include/cista/containers/hash_storage.h")],
     na="the invariant relates the probe sequence of every stored key's hash to the content of all control bytes in between (a quantified property over an array indexed modulo a symbolic capacity); no sound static analysis within reach keeps it. The storage, ownership and index arithmetic below it is decided separately.")
prop("N03", "The spatial index finds exactly the intersecting entries",
     "A search in the R-tree visits every entry whose rectangle intersects the query exactly once and no other, after any history of insertions and deletions.",
     ["histories"], "all histories of insertions, splits and deletions", "tests compare a few random sets with brute force",
     ["include/cista/containers/rtree.h"], [("rtree", "include/cista/containers/rtree.h")],
     na="a tree-shape invariant with floating point rectangles over unbounded histories; needs shape analysis plus reasoning about splits, not reachable soundly with the available static domains.")
prop("N04", "Type hashes agree between compilers and standard libraries",
     "The type hash of a structure is the same wherever the structure's layout is the same.",
     ["configurations"], "all compilers, standard libraries and platforms", "tests pin the values of one platform family",
     ["include/cista/type_hash/type_hash.h"], [("type_hash, canonical type names", "include/cista/type_hash/type_hash.h")],
     na="quantifies over compilers that are not installed here; the canonicalised name is produced by compiler-specific text.")
