# How each property is decided (goes into DESIGN.md).  HOW[id] = text
HOW = {
"D01": "`check_ptr` (all overloads, raw and offset) called with a symbolic context (buffer bounds), address/offset and extent. Oracle: exact integer formula (inside, aligned, no wrap), both directions (acceptance implies it; it implies acceptance).",
"D02": "`check_state`/`deserialize` of `basic_vector` on an arbitrary image header; after acceptance the fields must satisfy the invariant; `ob_accept_*` roots give well-formed images that must be accepted.",
"D03": "As D02 for `generic_string`, `basic_string`, `basic_string_view` with 1/2/4-byte characters.",
"D04": "As D02 for `basic_unique_ptr`.",
"D05": "As D02 for `hash_storage`; capacity is any 64-bit value, products with the slot size are exact in the checked path.",
"D06": "Discriminators of `variant` and `optional`: arbitrary bytes, acceptance implies a valid value.",
"D07": "Each `recurse`/`deserialize` overload is run on an arbitrary accepted container; the element function is a recording model. For an arbitrary (ghost) element index the model must have been called exactly once, at that element's address, in order (loop summary), and not outside. Aggregates of 1..64 members are generated.",
"D08": "`deserialize<T, Mode>` for 10 flag combinations on an arbitrary buffer; version constants, stored checksum and digest are symbolic. Returning implies all gates; the digest model records seed, start, length.",
"D09": "`deserialize_ptr` and the containers' pointers: slot content before -> after, exact formula.",
"D11": "Every scalar's slot before -> after equals the byte reverse (recognised as an opaque involution `bswap(x)`), exactly once, via recording of conversions and direct value comparison.",
"S01": "`serialize(c, T const*, pos)` per container with a recording target; header fields in the image and the one appended block (start, size, alignment) are compared with the in-memory object.",
"S02": "Per composite type: arbitrary ghost member/element must be serialised exactly once at its offset; block appends are counted. Aggregates of 1..64 members are generated; big-endian slots compared with `bswap`.",
"S03": "Pointer serialisation with the three lookup tables of the context replaced by nondeterministic interface models (found / not found, any offset).",
"S04": "`serialize<Mode>(target, root)`: event order and arguments recorded for all flag combinations; pending pointers are an arbitrary list (loop summary).",
"I01": "`buf<Buf>` with a model byte container whose storage may move; ghost byte at an arbitrary position must keep its value or be the new one.",
"I02": "`file`/`chunk` against a model of fopen/fseek/fread/fwrite/fstat with failures and short transfers at each call; ghost byte position must be covered exactly once.",
"I03": "`file` and `mmap` operations from any valid state (closed/open, unmapped/mapped, read/write) with modelled system calls; ghost counters of open handles and mapped extents.",
"C01": "`offset_ptr` operations on symbolic positions/targets in the 47-bit address space; result target equals the raw pointer's.",
"C02": "`basic_vector` of a life-tracking element type in ghost blocks: an arbitrary ghost position's state (raw/alive/freed) is updated by the element's special members and malloc/free models; each operation from an arbitrary valid state must re-establish the invariant. Self-insertion, exhausted memory and full size types included.",
"C03": "`generic_string`/`basic_string(_view)`/`(basic_)cstring` over ghost text blocks; an arbitrary ghost character position is compared with the specified text; all state pairs, self-overlap, failing allocation.",
"C04": "As C02 for `basic_unique_ptr` with one life-tracked object.",
"C05": "As C02 for `optional`.",
"A01": "The compiler's atomic builtins are replaced by macros over a ghost value that may change arbitrarily before every access (rely: other threads write anything; for get_next, claims up to the size), and that check each write against the value current at that moment. The memory itself is a trap: a plain load yields something unrelated, a plain store is noticed afterwards. Both configurations (builtins in C++17, std::atomic_ref in C++20). The compare-exchange loops are analysed to a fixpoint. Not covered: memory ordering of other data.",
"C09": "Each control byte primitive is instantiated for every constant position, byte value, mask, slot or distance with all other bytes arbitrary; the word-level arithmetic then reduces to known bits, which the optimiser decides, and the engine decides what is left. The expected value is stated per slot, not by word arithmetic. These are the local facts on which finding entries rests; that whole histories keep them in step with the stored keys is N02.",
"I04": "One obligation per position of the highest (lowest) set bit with all other bits arbitrary; decided by known bits, division facts by the abstract interpreter.",
"C10": "Roots place an arbitrary index over arbitrary data (borders only ordered and in range) in model vectors that record what is inserted, erased and resized, and compare begin, end, size, element addresses and iterator arithmetic of mutable and const buckets with index arithmetic; out-of-range access must not return. Changes start from three arbitrary buckets; all borders and every moved range are compared afterwards. `nvec::at` checks the first index only, that is what is specified. Not covered: key types too narrow for the borders.",
"C11": "One step from an arbitrary well-formed state: a bucket, another bucket and (optionally) a free part, pairwise disjoint and inside the data; afterwards disjointness, sizes, capacities, free lists and element counts are obligations (C11.cc), and with concrete shapes but arbitrary elements the contents of all buckets (C11_elems.cc; the model data vector relocates and poisons the old memory whenever it grows).",
"C12": "As C11 for `paged_vecvec`: concrete page tables and free lists, arbitrary elements; the data relocates when it grows; contents of all buckets, the page chosen and the chain of free pages (read back from the data) are obligations. Loops that find the free list are unrolled by the engine (`-unswitch-loops`).",
"C08": "Every operation of `bitset` and `basic_bitvec` on arbitrary words, one root per size, position and shift distance: these are constants, so that the optimiser unrolls the word loops and every obligation is about single bits of arbitrary words; most are discharged by known-bits reasoning alone, the rest by the abstract interpreter. Expected values are computed from the words by index arithmetic in the harness. Bit vectors lie in given memory (growth is C02) and use raw pointers.",
"C07": "`hash_storage` of a life-tracking entry type; one arbitrary slot of the old and one of the new storage are followed (its control byte is watched: stores to other bytes are kept apart from it); hashing and comparing return arbitrary values. Checked after the operation, wherever user code may throw, and at the throw of a failing allocation. Not covered: that a probe finds a stored key (N02).",
"C06": "As C02 for `variant` (3 life-tracked alternatives) and `apply` up to 40 alternatives.",
}
