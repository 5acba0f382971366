import json
F = """P03 dbd595d the slow bitmap scan skipped the free slots of the last quad word, so a zone with free chunks was called full
P11 1f1fb38 a zone created to replace the retired zone 0 was appended instead of taking index 0
P11 7483ee0 replacing a retired zone failed when every zone slot was in use although none is needed
P10 49c974f more bitmap slices were handed out of a shared page than its in_use mask can track
P04 699e322 the free path read past the end of the zone bitmap (bounds test with > and unguarded neighbour)
P18 ed5a25b looking up a big zone without removing it unlinked it from the used list
P09 5beddfb a lookup table index equal to the number of zones was accepted
P17 6cbd149 iso_strdup and iso_strndup returned strings without a terminator
P04 8682368 freeing a canary chunk or a permanently freed chunk was accepted, and made it available for reuse
P15 6e75ab4 sizes close to SIZE_MAX wrapped when rounded up and returned a small chunk
P21 a5f1409 tag lookup accepted addresses outside the zone and rejected chunks inside it
P21 e3c6a66 verifying a pointer tag compared the wrong bits, so no wrong tag was ever detected
P21 90810db memory tags were never refreshed because of an operator precedence mistake
P11 e1671e2 destroying a tagged zone left the guard page below its tags mapped
P13 7a1f06d the metadata page of a big allocation was never unmapped (unaligned munmap)
P29 52a3280 allocation sampling was applied to private zone allocations; the sampling table index could leave the table
P19 0c4a0cf zone verification accepted next_sz_index equal to the number of zones
P37 f71f869 a refused zone was returned as a masked null pointer that looks like a handle
P15 500faf5 calloc wrote to a null pointer when the allocation was refused
P23 f00a32c iso_alloc aborted for sizes of 2 MB and more on systems without reserved huge pages
P22 d7f75bc the shared random seed was updated without the root lock by _iso_big_alloc
P22 0d2c420 teardown with cleanup unlocked the big zone mutexes a second time
P30 ff4f083 teardown with cleanup passed the thread local zone cache to munmap
P30 e16dac1 the cleanup configuration did not compile without ALLOC_SANITY
P34 09d9aa9 the profiler copied fewer traces than it reported"""
L = []
for l in F.split('\n'):
    p, c, w = l.split(' ', 2)
    L.append(dict(status='fixed', property=p, commit=c, text='fixed: property=%s %s %s' % (p, c, w)))
AL = ['memalign', 'aligned_alloc', '__libc_memalign', 'libc_memalign', '__posix_memalign', 'posix_memalign', '_ZnwmSt11align_val_t',
      '_ZnwmSt11align_val_tRSt9nothrow_t', '_ZnamSt11align_val_t', '_ZnamSt11align_val_tRSt9nothrow_t']
for f in AL:
    L.append(dict(status='known', property='P26', fn=f, obligation='the memory is aligned as requested', cfg='hook',
                  what='%s does not align memory beyond 32 bytes: for an alignment of 64 or more and a size that is served from a chunk size which is no multiple of it, '
                       'the result is misaligned (e.g. alignment 64, a 96 byte chunk)' % f))
for f in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'):
    L.append(dict(status='known', property='P26', fn=f, obligation='a throwing operator new never returns null', cfg='hook',
                  what='%s returns null instead of throwing when the allocation is refused (sizes above 4 GB)' % f))
json.dump(L, open('/verif/known_findings.json', 'w'), indent=1)
