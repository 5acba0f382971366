"""Which functions (and configurations) decide which property."""

TRUSTED = ['the IR executor and obligation generator in /verif/engine', 'z3 %s (QF_UFBV and smt tactics)' % __import__('z3').get_version_string(),
           'clang 18 -O0 and opt -passes=mem2reg as the front end']
ASSUME = [
    'memory model: zone metadata, root, lookup table, quarantine, zone bitmaps, user pages and big-zone metadata are disjoint objects (guaranteed by mmap returning fresh ranges)',
    'page size 4096 (g_page_size, g_page_size_shift), x86-64 SysV, two\'s complement 64-bit addresses below 2^46',
    'products and quotients by the chunk size are uninterpreted for the solver and governed by listed arithmetic lemmas',
    'logging (_iso_alloc_printf) has no effect on allocator state; abort() does not return',
]
WEIGHT = {'fill_free_bit_slots': 40, 'iso_free_chunk_from_zone': 30, 'iso_scan_zone_free_slot_slow': 25}

D = 'default'
H = 'hook'


def J(cfg, *fns):
    return [(f, cfg) for f in fns]


SHIMS = ['malloc', '__libc_malloc', 'free', '__libc_free', 'calloc', '__libc_calloc', 'realloc', '__libc_realloc', 'reallocarray', '__libc_reallocarray',
         'malloc_usable_size', 'libc_malloc', 'libc_free', 'libc_realloc', 'memalign', 'aligned_alloc', '__libc_memalign', 'libc_memalign',
         '__posix_memalign', 'posix_memalign',
         '_Znwm', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t', '_ZnwmSt11align_val_tRSt9nothrow_t', '_Znam', '_ZnamRKSt9nothrow_t',
         '_ZnamSt11align_val_t', '_ZnamSt11align_val_tRSt9nothrow_t', '_ZdlPv', '_ZdlPvm', '_ZdlPvRKSt9nothrow_t', '_ZdlPvSt11align_val_t',
         '_ZdlPvSt11align_val_tRSt9nothrow_t', '_ZdaPv', '_ZdaPvm', '_ZdaPvRKSt9nothrow_t', '_ZdaPvSt11align_val_t', '_ZdaPvSt11align_val_tRSt9nothrow_t',
         'iso_alloc', 'iso_calloc', 'iso_free', 'iso_free_size', 'iso_chunksz', 'is_pow2']
HANDLES = ['iso_free_from_zone', 'iso_free_from_zone_permanently', 'iso_alloc_tag_ptr', 'iso_alloc_untag_ptr', 'iso_alloc_verify_ptr_tag',
           'iso_alloc_destroy_zone', 'iso_alloc_detect_zone_leaks', 'iso_alloc_zone_mem_usage', 'iso_verify_zone', 'iso_alloc_from_zone',
           'iso_alloc_from_zone_tagged', 'iso_alloc_get_mem_tag', 'iso_alloc_new_zone', 'iso_zone_chunk_count', 'iso_strdup_from_zone', 'iso_strndup_from_zone']
MAPFN = ['mmap_pages', 'mmap_rw_pages', 'mmap_guarded_rw_pages', 'create_guard_page', 'unmap_guarded_pages', 'mprotect_pages', 'dont_need_pages']
ALLOC = ['fill_free_bit_slots', 'iso_scan_zone_free_slot', 'iso_scan_zone_free_slot_slow', '_iso_alloc_bitslot_from_zone', 'is_zone_usable', 'iso_free_chunk_from_zone']

ALLFN = ALLOC + ['find_suitable_zone', '_iso_alloc', 'populate_zone_cache', '_iso_calloc', 'search_chunk_lookup_table', 'iso_find_zone_range', 'iso_find_zone_bitmap_range',
                 'create_canary_chunks', '_iso_free_internal_unlocked', '_iso_free_internal', '_iso_free_from_zone', 'flush_chunk_quarantine', 'flush_caches', '_iso_free',
                 '_iso_free_size', '_iso_chunk_size', 'iso_find_big_zone', 'iso_free_big_zone', '_iso_big_alloc', '_verify_zone', 'verify_zone', '_iso_alloc_ptr_search'] + MAPFN

PROPS = {
    'P01': dict(jobs=J(D, *ALLOC, 'find_suitable_zone')),
    'P02': dict(jobs=J(D, '_iso_alloc', 'find_suitable_zone', 'is_zone_usable', '_iso_alloc_bitslot_from_zone') + J('strong', 'is_zone_usable')),
    'P03': dict(jobs=J(D, '_iso_alloc', 'find_suitable_zone', 'is_zone_usable', 'iso_scan_zone_free_slot_slow', '_iso_alloc_bitslot_from_zone', 'iso_free_chunk_from_zone')),
    'P27': dict(jobs=J(D, '_iso_alloc', 'is_zone_usable', 'find_suitable_zone', 'iso_free_chunk_from_zone', '_iso_free_internal_unlocked', '_iso_free_size', '_iso_chunk_size',
                       '_verify_zone', 'verify_zone', 'iso_find_zone_range', 'iso_find_zone_bitmap_range', '_iso_alloc_ptr_search')),
    'P36': dict(jobs=J(D, 'populate_zone_cache', '_iso_alloc', 'flush_caches', '_iso_free_internal') + J('spin', 'populate_zone_cache')),
    'P04': dict(jobs=J(D, 'iso_free_chunk_from_zone')),
    'P05': dict(jobs=J(D, 'iso_free_chunk_from_zone')),
    'P06': dict(jobs=J(D, 'iso_free_chunk_from_zone', 'iso_free_permanently', 'iso_free_from_zone_permanently')),
    'P07': dict(jobs=J(D, 'iso_free_chunk_from_zone', '_iso_alloc_bitslot_from_zone', 'create_canary_chunks')),
    'P08': dict(jobs=J(D, 'flush_chunk_quarantine', 'flush_caches', '_iso_free')),
    'P13': dict(jobs=J(D, 'iso_find_big_zone', 'iso_free_big_zone', '_iso_free_internal_unlocked', '_iso_free_internal', '_iso_free_from_zone') + [('iso_free_big_zone', 'guard', None, 'P13g')],
                thorough=J('guard', 'iso_find_big_zone', 'iso_free_big_zone')),
    'P18': dict(jobs=J(D, '_iso_chunk_size', 'iso_chunksz')),
    'P30': dict(jobs=J(D, '_iso_alloc_initialize', 'iso_alloc_initialize_global_root', 'iso_alloc_new_root', '_iso_alloc_destroy', '_free_big_zone_list') + J('dtor', '_iso_alloc_destroy')),
    'P31': dict(jobs=J(D, '_iso_free_size', 'iso_free_size')),
    'P09': dict(jobs=J(D, 'search_chunk_lookup_table', 'iso_find_zone_range', 'iso_find_zone_bitmap_range')),
    'P12': dict(jobs=J(D, '_iso_big_alloc') + [('_iso_big_alloc', 'guard', None, 'P12g')], thorough=J('guard', '_iso_big_alloc') + J('abortnull', '_iso_big_alloc') + J('nocanary', '_iso_big_alloc')),
    'P14': dict(jobs=J(D, 'iso_find_big_zone', '_iso_big_alloc')),
    'P15': dict(jobs=J(D, '_iso_calloc', 'iso_calloc')),
    'P16': dict(jobs=J(D, 'iso_realloc', 'iso_reallocarray') + J('permrealloc', 'iso_realloc', 'iso_reallocarray')),
    'P17': dict(jobs=J(D, 'iso_strdup', 'iso_strndup', 'iso_strdup_from_zone', 'iso_strndup_from_zone')),
    'P19': dict(jobs=J(D, '_verify_zone', 'verify_zone')),
    'P25': dict(jobs=J('libc', '_iso_alloc_memset', '_iso_alloc_memcpy', '_iso_alloc_memmove', 'memcpy', 'memmove', 'memset')),
    'P35': dict(jobs=J(D, '_iso_alloc_ptr_search') + J('tag', '_iso_alloc_ptr_search')),
    'P24': dict(jobs=J(D, '_iso_alloc', '_iso_free', '_iso_free_size', '_iso_chunk_size', '_iso_alloc_initialize', '_iso_alloc_destroy')),
    'P23': dict(jobs=J(D, *MAPFN)),
    'P26': dict(jobs=J(H, *SHIMS)),
    'P28': dict(jobs=J(D, 'rand_uint64')),
    'P32': dict(jobs=J(D, 'is_pow2', 'next_pow2', '_log2', *MAPFN)),
    'P37': dict(jobs=J(D, *HANDLES)),
    'P38': dict(jobs=J(D, *ALLFN), thorough=J('guard', '_iso_big_alloc', 'iso_find_big_zone', 'iso_free_big_zone')),
    'P22': dict(jobs=J(D, *ALLFN, '_iso_alloc_initialize', '_iso_alloc_destroy') + J('dtor', '_iso_alloc_destroy') + J('spin', '_iso_alloc', '_iso_free', '_iso_free_size')),
}
# where to look for a failing history of the real code, once an obligation has failed: (configuration, mode, rounds) of replay/driver.c
_Z, _S, _B, _C = (D, 'zone', 400), (D, 'small', 200), (D, 'badfree', 60), (D, 'canary', 30)
_H, _G, _GC, _O = (D, 'heap', 600), (D, 'big', 300), (D, 'bigcanary', 20), (D, 'overflow', 50)
_A, _M, _L, _HD = (D, 'arith', 30), (D, 'map', 20), (D, 'lookup', 20), (D, 'handles', 30)
REPLAY = {
    'P01': [_Z, _S, _H], 'P02': [_Z, _H], 'P03': [_Z, _S, _H], 'P04': [_B, _Z, _S], 'P05': [_Z, _S, _B], 'P06': [_Z, _B, _H], 'P07': [_C, _Z, _S], 'P08': [_H, _G], 'P09': [_L, _H],
    'P10': [_Z, _HD, _H], 'P11': [(D, 'destroy', 20), (D, 'retire', 10), _Z], 'P12': [_G, _H, _GC], 'P13': [_G, _H, _GC], 'P14': [_GC, _G], 'P15': [_O, _H],
    'P16': [_H, _G, _O], 'P17': [(D, 'str', 200)], 'P18': [_H, _G], 'P19': [_C, _Z], 'P20': [('leak', 'leaks', 100)], 'P21': [('tag', 'tags', 40)], 'P22': [_Z, _H, _HD, _G],
    'P23': [_M, _G], 'P24': [(D, 'zero', 1)], 'P25': [('libc', 'libc', 60)], 'P26': [(H, 'shims', 100)], 'P27': [_H, _Z], 'P28': [(D, 'random', 50)],
    'P30': [(D, 'teardown', 40)], 'P31': [_H, _G], 'P32': [_A, _M], 'P35': [(D, 'search', 3)], 'P36': [_H, _Z], 'P37': [_HD],
}
for _k, _v in REPLAY.items():
    if _k in PROPS:
        PROPS[_k].setdefault('replay', _v)
NOT_CLAIMED = {}
