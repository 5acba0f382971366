"""The properties of struct/isoalloc, as data.  gen.py writes properties.jsonl and MANIFEST.json from this file."""
H, I, CF, SC, FS = 'histories', 'inputs', 'configurations', 'schedules', 'fault_sequences'
A = 'src/iso_alloc.c'
IF = 'src/iso_alloc_interfaces.c'
U = 'src/iso_alloc_util.c'


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe)))


ZST = [('zone bitmap', 'two bits per chunk: in use, and used-before (canary present)', 'include/iso_alloc_internal.h iso_alloc_zone_t'),
       ('free slot list', 'shuffled array of slots of free chunks', 'include/iso_alloc_internal.h iso_alloc_zone_t'),
       ('pending slot', 'the slot the next allocation of the zone uses', 'include/iso_alloc_internal.h iso_alloc_zone_t')]
SAMPLE = 'the tests run a few fixed sequences of sizes and frees from the initial state; the property quantifies over every reachable state of a zone and every argument'

PROPS = [
 P('P01', 'A chunk in use is never handed out again',
   'An allocation from a zone returns a chunk that was free and marks exactly that chunk as in use; no other chunk changes its state. '
   'The free list and the pending slot of a zone only ever name distinct free chunks of that zone, whatever allocations and frees came before.',
   [H, I], 'every state of a zone that satisfies the zone invariant (any bitmap, any free list), every size',
   SAMPLE, [A], [('free list refill', 'fill_free_bit_slots'), ('bitmap scans', 'iso_scan_zone_free_slot, iso_scan_zone_free_slot_slow'), ('slot choice', 'get_next_free_bit_slot, is_zone_usable'), ('slot allocation', '_iso_alloc_bitslot_from_zone')], ZST, ['iso_alloc']),
 P('P02', 'Chunks lie inside their zone, at chunk boundaries, and are big enough',
   'A small allocation returns the start of a chunk: the zone\'s user pages plus a whole number of chunk sizes, inside the zone, in a zone whose chunk size is at least the size asked for. '
   'An internal zone is used for a size only when its chunks waste no more than the documented limit.',
   [H, I], 'every zone state and every requested size', SAMPLE, [A], [('zone selection', 'iso_find_zone_fit, is_zone_usable'), ('slot to address', '_iso_alloc_bitslot_from_zone')], ZST, ['iso_alloc']),
 P('P03', 'Correct use never aborts and a zone with free chunks is never called full',
   'A zone reports that it is full only when every one of its chunks (those its bitmap covers in whole words) is in use, and as long as no chunk has been corrupted an allocation or a correct free does not abort. '
   'A zone that gets a chunk back is usable again.',
   [H, I], 'every zone state satisfying the invariant, every size', SAMPLE, [A], [('slow scan', 'iso_scan_zone_free_slot_slow'), ('full flag', 'is_zone_usable, iso_free_chunk_from_zone')], ZST, ['iso_alloc', 'iso_free']),
 P('P04', 'Freeing anything but a live chunk of the zone aborts',
   'Freeing an address that is not the start of a chunk, that lies outside the zone, or whose chunk is already free (double free) terminates the process; the call never returns and never changes the bitmap.',
   [H, I], 'every 64-bit pointer value and every zone state', 'tests try a handful of bad pointers; the property is about all 2^64 of them in every zone state', [A],
   [('validation of freed pointers', 'iso_free_chunk_from_zone')], ZST, ['iso_free']),
 P('P05', 'Freeing a chunk makes that chunk available and touches nothing else',
   'Freeing a live chunk marks exactly that chunk free, lowers the count of active chunks by one, and offers the chunk for reuse once. '
   'No other chunk\'s state or contents, and no other zone, changes; the chunk\'s own contents change only where canaries or sanitisation say so.',
   [H, I], 'every zone state and every live chunk', SAMPLE, [A], [('bit update, canary write, poison', 'iso_free_chunk_from_zone'), ('free list insert', 'insert_free_bit_slot')], ZST, ['iso_free']),
 P('P06', 'A permanently freed chunk is poisoned and never handed out again',
   'A chunk freed permanently is overwritten with the poison byte except for its canaries, stays marked as in use, is never placed on the free list, and so is never returned by a later allocation.',
   [H, I], 'every zone state and every live chunk', 'tests permanently free a few chunks of a few sizes', [A], [('permanent free', 'iso_free_chunk_from_zone')], ZST, ['iso_free_permanently']),
 P('P07', 'Canaries catch writes to freed chunks on reuse and on neighbouring frees',
   'A freed chunk carries a per-zone secret canary, with a zero low byte, at both of its ends. '
   'Reusing a chunk whose canaries were changed, or freeing a chunk next to a freed chunk whose canaries were changed, terminates the process; the canary is wiped from a chunk that is handed out.',
   [H, I], 'every zone state, every chunk and every value written over the canary', 'tests corrupt one canary in one place', [A],
   [('canary write', 'write_canary'), ('canary checks', 'check_canary, check_canary_no_abort, iso_free_chunk_from_zone')], ZST, ['iso_alloc', 'iso_free']),
 P('P08', 'Frees pass through the quarantine exactly once',
   'A chunk freed with a delay is held in a bounded quarantine and freed exactly once when the quarantine is flushed, in either case before the space of its slot in the quarantine is reused. '
   'The quarantine never holds more than its capacity and is empty after a flush.',
   [H, I], 'every quarantine content up to capacity, every freed pointer', 'tests cannot see the order and multiplicity of deferred frees for all fill levels', [A],
   [('quarantine', '_iso_free, flush_chunk_quarantine')], [('chunk_quarantine', 'pointers whose free is deferred', 'iso_alloc_root')], ['iso_free']),
 P('P09', 'A pointer is attributed to the zone that contains it, or to none',
   'Looking up an address finds a zone exactly when the address lies in the user pages of some zone, and then finds that zone; the same holds for bitmap addresses. '
   'The lookup table is only ever a hint and never changes the answer.',
   [H, I], 'every set of zones (up to the maximum), every address, every content of the lookup table', 'tests look up addresses of a few zones they just created', [A],
   [('lookup', 'search_chunk_lookup_table, iso_find_zone_range, iso_find_zone_bitmap_range')], ZST, ['iso_chunksz', 'iso_free']),
 P('P10', 'A new zone starts well formed, guarded and entirely free',
   'Creating a zone rounds the chunk size up, sizes the bitmap to hold two bits per chunk, and leaves all chunks free with a valid pending slot, guard pages around the user pages and canaries marking random unusable chunks. '
   'The zone count grows by one (or a retired entry is replaced in place), never beyond the maximum, and other zones are not touched.',
   [H, I, CF], 'every requested size, every number of existing zones, every replaced index', 'tests create zones of a few sizes in a few orders', [A],
   [('zone creation', '_iso_new_zone, create_canary_chunks')], ZST, ['iso_alloc_new_zone']),
 P('P11', 'Destroying or retiring a zone releases exactly its own mappings',
   'Destroying a zone unmaps exactly its user pages with their guards and its own bitmap, or returns its share of a shared bitmap page, and nothing else. '
   'An internal zone that is replaced keeps its index, so that later lookups stay consistent.',
   [H, I], 'every zone state, preallocated and own bitmaps, internal and private zones', 'tests do not observe which address ranges are unmapped', [A],
   [('destroy', '_iso_alloc_destroy_zone_unlocked'), ('retire', '_is_zone_retired, _iso_free_internal_unlocked')], ZST, ['iso_alloc_destroy_zone']),
 P('P12', 'Big allocations are page aligned, guarded, big enough and exclusively owned',
   'A request above the small limit returns page-aligned memory of at least the requested size that no other live allocation owns, recorded once on the list of used big allocations. '
   'A recycled mapping is reused only if it is large enough and not wasteful; a request above the maximum is refused.',
   [H, I], 'every list of free and used big allocations, every size', 'tests allocate a few big sizes in sequence', [A],
   [('big allocation', '_iso_big_alloc'), ('insertion', 'iso_alloc_big list handling')], [('big_zone_free / big_zone_used', 'masked lists of big allocations', 'iso_alloc_root')], ['iso_alloc']),
 P('P13', 'Freeing a big allocation removes it once and releases its memory',
   'Freeing the start of a live big allocation takes exactly that allocation off the used list and either releases its pages to the system for reuse or unmaps them with their guards and metadata; a permanent free makes pages and metadata inaccessible for good. '
   'Freeing anything else that is not a live allocation terminates the process; all other big allocations stay on their lists.',
   [H, I], 'every list of big allocations, every pointer, permanent or not', 'tests free a few big allocations in a few orders', [A],
   [('lookup and unlink', 'iso_find_big_zone'), ('release', 'iso_free_big_zone')], [('big_zone_free / big_zone_used', 'masked lists', 'iso_alloc_root')], ['iso_free']),
 P('P14', 'Corrupted metadata of a big allocation is detected before it is used',
   'The metadata of every big allocation carries two canaries derived from a secret, its own address and the address of the memory it describes. '
   'Walking over, freeing or reusing a big allocation whose canaries do not match terminates the process.',
   [H, I], 'every metadata content', 'tests corrupt one field in one way', [A], [('check', 'check_big_canary')], [], ['iso_free', 'iso_alloc']),
 P('P15', 'calloc returns zeroed memory of the product size and refuses overflow',
   'A zeroing allocation of n elements of a given size either terminates or fails when the product does not fit, or returns memory that is at least that product long and entirely zero. '
   'A size so large that rounding would wrap is refused.',
   [I, H], 'all 2^128 argument pairs, any previous contents of the recycled chunk', 'tests use a few pairs', [A, IF], [('calloc', '_iso_calloc, iso_calloc')], [], ['iso_calloc']),
 P('P16', 'Reallocation keeps the contents and frees the old memory exactly once',
   'Resizing an allocation returns memory of at least the new size whose first bytes, up to the smaller of the two sizes, equal the old contents, and releases the old memory exactly once; when the old chunk is already large enough it may be returned unchanged. '
   'A resize to zero frees the memory, a product that overflows is refused, and on failure the old memory stays valid.',
   [I, H], 'all pointers, sizes and contents', 'tests reallocate a few sizes and do not check multiplicity of the release', [IF], [('realloc', 'iso_realloc, iso_reallocarray')], [], ['iso_realloc']),
 P('P17', 'String duplicates are exact copies, terminated, and never read past the bound',
   'Duplicating a string returns a new allocation that holds the same bytes followed by a terminator, cut to the bound when one is given. Bytes past the bound of the source are never read, and a null string yields null.',
   [I], 'every string, every bound', 'tests duplicate short literals', [IF], [('strdup', 'iso_strdup, iso_strndup and their zone variants')], [], ['iso_strdup', 'iso_strndup']),
 P('P18', 'The reported chunk size is the usable size and asking changes nothing',
   'The size reported for a live allocation is the number of bytes the caller may use, at least the number requested. Asking for it changes no allocator state.',
   [H, I], 'every pointer and every allocator state', 'tests ask for sizes of a few chunks and do not look at side effects', [A, IF], [('chunk size', '_iso_chunk_size, iso_chunksz')], [], ['iso_chunksz']),
 P('P19', 'Zone verification finds corruption and never rejects a sound zone',
   'Verifying a zone terminates the process when its chain to the next zone of its size is corrupted or when a free chunk or canary chunk has a damaged canary at either end. It returns quietly for every sound zone, in which case nothing has changed.',
   [H, I], 'every zone state and every corruption of a canary', 'tests verify sound zones and one corruption', [A], [('verification', '_verify_zone')], ZST, ['iso_verify_zone', 'iso_verify_zones']),
 P('P20', 'The leak detector counts exactly the chunks still in use',
   'The number of leaks reported for a zone equals the number of its chunks in use other than canary chunks, and the byte count is that number times the chunk size. Detecting leaks changes nothing.',
   [H], 'every bitmap content', 'tests leak a handful of chunks', ['src/iso_alloc_profiler.c'], [('leak detector', '_iso_alloc_zone_leak_detector')], ZST, ['iso_alloc_detect_leaks']),
 P('P21', 'Memory tags are attributed to the right chunk and checked exactly',
   'In a tagging configuration each chunk of a private zone has its own tag byte; tagging a pointer sets its top byte to that tag, untagging removes it, and verification accepts exactly the tag of that chunk. '
   'A pointer outside the zone, or one whose tag does not match, is rejected; freeing a chunk changes the tag of no other chunk that is in use.',
   [I, H, CF], 'every pointer, every tag value, every chunk size', 'tests tag a few pointers of one zone', ['src/iso_alloc_mem_tags.c'], [('tags', '_iso_alloc_get_mem_tag, _tag_ptr, _untag_ptr, _iso_alloc_verify_tag, _refresh_zone_mem_tags')], [], ['iso_alloc_from_zone_tagged', 'iso_alloc_verify_ptr_tag']),
 P('P22', 'Shared allocator metadata is only touched under its lock, without self-deadlock',
   'Allocation, free and zone management write shared metadata only while holding the lock that protects it, never lock a lock they hold, never unlock one they do not hold, and return with every lock released on all paths.',
   [SC, H], 'every path through the allocation, free and zone management code', 'a data race or a missed unlock shows only in particular interleavings or on rare paths', [A], [('locks', 'LOCK_ROOT, LOCK_BIG_ZONE_FREE, LOCK_BIG_ZONE_USED')], [], ['all API functions']),
 P('P23', 'Mapping helpers return exactly the pages asked for, with inaccessible guards',
   'A guarded mapping of a size consists of that size rounded up to pages, readable and writable, with an inaccessible page on each side; releasing it releases the same range including both guards. A failed mapping terminates the process rather than returning.',
   [I, FS], 'every size, every result of the system calls', 'tests map a few sizes and no system call ever fails', [U], [('mapping helpers', 'mmap_rw_pages, mmap_guarded_rw_pages, create_guard_page, unmap_guarded_pages')], [], ['mmap/mprotect/munmap calls']),
 P('P24', 'Zero-sized allocations cannot be dereferenced and can be freed',
   'In the configuration that supports them, an allocation of size zero returns the one page reserved for it, which is mapped without any access until teardown; '
   'freeing it changes nothing, and a sized free of it with a size other than zero terminates the process.',
   [I, CF], 'every state', 'tests allocate size zero once', [A], [('zero page', '_iso_alloc, _iso_free_internal')], [], ['iso_alloc', 'iso_free']),
 P('P25', 'Copies and fills longer than a chunk of the zone they start in are refused',
   'With the library sanity checks on, copying, moving or filling more bytes than a chunk holds, from or into the zone that the lookup table names for the address, terminates the process when the range lies inside that zone. '
   'In every other case the operation has exactly the standard effect and returns its destination.',
   [I, CF], 'every pair of pointers and every length', 'tests overflow one chunk by a fixed amount', ['src/iso_alloc_sanity.c'], [('bounds checks', '_iso_alloc_memcpy, _iso_alloc_memmove, _iso_alloc_memset')], [], ['memcpy', 'memmove', 'memset']),
 P('P26', 'The libc shims forward to the allocator with libc semantics',
   'The malloc family entry points map to the corresponding allocator operation with the same arguments in the right order, and aligned allocations return suitably aligned memory or refuse.',
   [I], 'all arguments', 'tests call few of the shims', ['src/malloc_hook.c', 'src/iso_alloc.cpp'], [('shims', 'malloc_hook.c')], [], ['malloc', 'free', 'calloc']),
 P('P27', 'Zone pointers are masked whenever the allocator is not using them',
   'Whenever a public operation returns, the addresses of user pages and bitmap stored in every zone are masked with that zone\'s secret mask, and unmasking them gives the same addresses as before.',
   [H], 'every path through allocation, free, verification and zone management', 'tests never look at stored pointers', [A], [('masking', 'MASK_ZONE_PTRS / UNMASK_ZONE_PTRS')], ZST, ['zone metadata']),
 P('P28', 'Secrets come from the system entropy source and failure is fatal',
   'A random value the allocator takes from the system is a full 64-bit word delivered by the system entropy source and is used exactly as delivered; if that source fails or delivers less, the process terminates instead of running with predictable secrets.',
   [FS], 'every failure of the entropy source', 'the entropy source never fails in tests', ['src/iso_alloc_random.c'], [('random', 'rand_uint64')], [], ['getrandom']),
 P('P29', 'Sampled allocations are isolated, bounded and reclaimed',
   'With allocation sampling on, a sampled allocation ends flush with (or starts at) an inaccessible guard, the table of samples never exceeds its capacity, and freeing a sampled pointer releases exactly that sample.',
   [H, I, CF], 'every table content, every size', 'sampling is random and rare', ['src/iso_alloc_sanity.c'], [('sampling', '_iso_alloc_sample, _iso_alloc_free_sane_sample')], [], ['iso_alloc']),
 P('P30', 'Initialisation builds the default zones once and teardown releases everything',
   'The first use of the allocator creates the root, its guarded tables, fresh secrets and exactly one internal zone per default size; initialising again does nothing. '
   'Teardown checks the canaries of every zone and releases the pages and metadata of every big allocation, used or free, exactly once; a library built to clean up also destroys every zone exactly once.',
   [H, CF], 'every list of big allocations and every number of zones at teardown', 'runs once per process', [A], [('init', 'iso_alloc_initialize'), ('teardown', '_iso_alloc_destroy')], [], ['constructor', 'destructor']),
 P('P31', 'A sized free with a wrong size is refused',
   'Freeing with an explicit size terminates the process when the allocation at the address is smaller than the stated size, or when the stated size belongs to the other kind of allocation (above the small limit for a chunk, below it for a big allocation). '
   'Otherwise the allocation is released exactly once, without waiting in the quarantine.',
   [I, H], 'every pointer and size', 'tests try a few sizes', [A], [('sized free', '_iso_free_size')], [], ['iso_free_size']),
 P('P32', 'Size arithmetic helpers compute the exact mathematical result',
   'Rounding up to a power of two, testing for a power of two, base-2 logarithm and rounding to pages return the exact result for every input in range, with no overflow.',
   [I], 'every 64-bit input', 'tests use a few values', [U], [('helpers', 'next_pow2, is_pow2, _log2')], [], ['chunk size of new zones']),
 P('P33', 'Memory usage figures equal the sum over the structures they describe',
   'The memory usage of a zone, of all zones and of all big allocations equals the sum of the sizes of the mappings they own, in whole megabytes where the interface reports megabytes, and computing it changes nothing.',
   [H], 'every allocator state', 'tests print the numbers', ['src/iso_alloc_profiler.c'], [('usage', '__iso_alloc_mem_usage, __iso_alloc_zone_mem_usage, __iso_alloc_big_zone_mem_usage')], [], ['iso_alloc_mem_usage']),
 P('P34', 'Profiler results are bounded copies of the recorded traces',
   'Asking for recorded traces copies exactly as many records as it reports, never more than the recorder holds, and records stay attributable to the call stack that produced them.',
   [H, CF], 'every profiler state', 'profiling is sampled', ['src/iso_alloc_profiler.c'], [('traces', '_iso_get_alloc_traces')], [], ['iso_get_alloc_traces']),
 P('P35', 'Searching for stale pointers only reads memory the allocator owns',
   'Searching for references to an address reads only the user pages of the zones that exist and changes nothing; it reports a location exactly when some zone holds the address, and then a location that does hold it.',
   [H, I], 'every allocator state', 'tests search once', ['src/iso_alloc_search.c'], [('search', '_iso_alloc_ptr_search')], [], ['debug builds']),
 P('P36', 'The per-thread zone cache only ever names zones that fit',
   'An entry of the per-thread cache names an internal zone with the recorded chunk size; using it never returns memory from a zone that does not fit the request, and the cache never exceeds its capacity.',
   [H, SC], 'every cache content and size', 'tests run few threads and sizes', [A], [('cache', 'iso_find_zone_fit, populate_zone_cache')], [], ['iso_alloc']),
 P('P37', 'Zone handles given to users are opaque and reversible',
   'The handle returned for a private zone is masked with the process-wide handle mask, a refused zone yields a null handle, and every public function that takes a handle recovers exactly that zone before use; where a null handle is accepted it is never used.',
   [I], 'every handle value', 'tests pass correct handles', [IF], [('handles', 'iso_alloc_interfaces.c')], [], ['iso_alloc_new_zone']),
 P('P38', 'The allocator itself never accesses memory outside its own objects',
   'No operation of the allocator reads or writes outside its metadata, its bitmaps, the user pages of the zone it works on and the guard-free range of a big allocation, for any argument and any well-formed state.',
   [H, I], 'every argument and every well-formed state', 'sanitizers see only executed paths', [A], [('bounds', 'all functions under contract')], ZST, ['all functions']),
]
