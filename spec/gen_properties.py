#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Edit the table here, then re-run."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))
H='h_malloc.c'
prop('C01','Allocator bookkeeping is only touched under its owning lock',
 'Once the allocator is initialised, every read or write of its mutable bookkeeping (slab state, free lists, quarantines, the large-allocation table, statistics, random generators) happens while holding the lock that owns that piece of state: the lock of that very size class in that very arena, or the large-allocation lock. A bookkeeping entry looked up in one critical section is never used in a later one without being looked up again, and other shared variables are accessed only atomically.',
 ['schedules','inputs','configurations'],'every interleaving of threads in any API functions; every path through each of them',
 'The tests are single threaded apart from two statistics programs; a missing lock shows only under a rare interleaving.',
 [H,'mutex.h'],[('per size class mutex and region allocator mutex',f'{H}: struct size_class.lock, struct region_allocator.lock')],
 [('size_class','per arena and class slab state',f'{H}: struct size_class'),('region_allocator','large allocation state',f'{H}: struct region_allocator')])
prop('C02','Every lock taken is released on every path',
 'Each allocator entry point returns to its caller holding exactly the locks it held on entry, on success and on every failure path alike; no thread acquires a lock it already holds or releases one it does not hold. The only exceptions are the pair that freezes and unfreezes the whole heap (around fork and for heap inspection), whose first half acquires every lock once and whose second half releases every one of them.',
 ['inputs','fault_sequences','configurations','schedules'],'all inputs and all out-of-memory results at each kernel call, on every path to a return',
 'Tests never make a kernel call fail, so the early returns that must unlock are never executed.',
 [H,'mutex.h'],[('mutex_lock/mutex_unlock pairing',f'{H}: every exported function')])
prop('C03','No deadlock: one lock order and no call-outs under a lock',
 'Whenever one thread holds several allocator locks they were acquired in a single global order shared by all entry points (the initialisation lock, then the large-allocation lock, then size-class locks by arena and class). No allocator lock is held while calling code outside the allocator that could itself allocate or block on user code: stdio, handler registration, new-handlers, another API function.',
 ['schedules','inputs','configurations'],'all pairs of concurrently running entry points, every path',
 'A lock-order inversion or a call-out under a lock deadlocks only under particular schedules or stdio buffer states.',
 [H,'mutex.h','new.cc'],[('full_lock order; unlock before pthread_atfork; unlock before fprintf',f'{H}: full_lock, init_slow_path, h_malloc_info')])
prop('C04','fork leaves a usable allocator in parent and child',
 'Initialisation registers fork handlers such that every allocator lock (the large-allocation lock and each size class of each arena) is held across fork, released in the parent, and re-created unlocked in the child. In the child every random generator is re-seeded from the operating system, so parent and child never produce the same random decisions.',
 ['schedules','histories','configurations'],'a fork at any moment of any multi-threaded history; every arena and size class',
 'No test forks while other threads allocate, and shared random streams are invisible to functional tests.',
 [H,'random.c'],[('pthread_atfork(full_lock, full_unlock, post_fork_child)',f'{H}: init_slow_path')])
prop('C05','Initialisation happens once and is published only when complete',
 'The allocator is set up exactly once even if several threads make their first call simultaneously: set-up runs under one lock after re-checking, and it becomes visible (through a release store that readers load with acquire) only after all state that other threads could read has been written. No entry point uses allocator state before that: allocating calls initialise first, deallocating and querying calls on an uninitialised allocator abort or return a constant.',
 ['schedules','histories','inputs'],'every interleaving of first calls; every order of first API calls',
 'The library constructor initialises before main, so tests never exercise racing or uninitialised first use beyond two cases.',
 [H],[('init/init_slow_path double-checked locking; enforce_init; is_init',f'{H}')],[('ro.slab_region_end','publication flag',f'{H}')])
prop('C06','Global state is sealed read-only after initialisation',
 'After initialisation the pointers and sizes that locate the allocator\'s metadata are held in whole pages that have been made read-only, and nothing writes to them again except the documented switch that disables memory tagging, which makes them read-only again before returning. No other writable global variable of the library holds pointers or allocator state: only locks, counters and the thread\'s arena number stay writable.',
 ['histories','programs','configurations'],'every write in the library after initialisation, in every history',
 'Tests do not attempt to corrupt library globals and cannot show the absence of other writable state.',
 [H,'memory.c'],[('union ro, page aligned and padded; memory_protect_ro(&ro, sizeof(ro))',f'{H}: init_slow_path')],[('ro','read-only state',f'{H}')])
prop('C07','Any invalid free of a slab address aborts before changing anything',
 'free, sized free, delete and any realloc that gives up a block abort the process when the pointer lies in the slab region but is not the start of a currently allocated slot: slab never used, not at a slot boundary, slot free, or slot in quarantine. The abort happens before any bookkeeping (the statistics counters aside) or any byte outside that slot itself has been changed on account of that pointer.',
 ['inputs','histories','configurations'],'every pointer value in the slab region, in every heap state',
 'The tests sample about eight bad pointers; each of the four conditions has to be checked for every class, slot and history.',
 [H],[('deallocate_small checks',f'{H}: deallocate_small, get_metadata')],[('bitmap / quarantine_bitmap','slot allocated / quarantined',f'{H}: struct slab_metadata')])
prop('C08','Any pointer that is not a live large allocation aborts when freed or resized',
 'free, sized free, delete, realloc and malloc_usable_size abort when given a pointer outside the slab region that is not exactly the address of a live large allocation, and when the allocator has never been initialised. Whenever such a block is given up or moved, exactly the table entry that was found for the pointer is removed before any of its pages is unmapped, replaced or moved, and resizing it in place updates exactly that entry.',
 ['inputs','histories','schedules'],'every pointer value outside the slab region, in every history, including races of two frees',
 'Tests try a handful of pointers in one thread.',
 [H],[('regions_find under the lock, NULL is fatal',f'{H}: deallocate_large, h_realloc, h_malloc_usable_size')])
prop('C09','Sized deallocation aborts exactly on a size mismatch',
 'Sized deallocation (free_sized and the sized C++ delete operators) aborts, before any state changes, if the given size would not have produced a block of the size class actually being freed, for small and for large blocks. It never aborts when passed the size (and alignment) with which the block was allocated; the size of an over-aligned block is judged with its alignment taken into account.',
 ['inputs','configurations'],'every requested size, alignment and passed size',
 'One test passes one wrong size; neither the other operators, large sizes, over-aligned types nor the absence of false aborts are covered.',
 [H,'new.cc'],[('expected_size comparisons',f'{H}: h_free_sized, deallocate_small, deallocate_large'),('sized operator delete','new.cc')])
prop('C10','Canaries guard the end of every non-empty slab allocation',
 'With canaries enabled, every slab allocation of non-zero size carries in its last 8 bytes its slab\'s canary, written on every allocation path and checked (aborting on mismatch) on every path that frees it or reports its usable size, before the block is zeroed or otherwise reused. The canary lies wholly beyond the bytes the caller asked for or may use, is drawn anew from the random generator each time a slab is taken into use from unused or purged memory, and its lowest-addressed byte is zero.',
 ['inputs','histories','configurations'],'every size, allocation path (new, cached, purged, partial slab) and API function',
 'Tests check two overflow sizes on one class; unchecked paths and missing room for the canary at other sizes are not reached.',
 [H],[('set_canary/check_canary/set_slab_canary_value/adjust_size_for_canary',f'{H}')],[('canary_value','per slab canary',f'{H}: struct slab_metadata')])
prop('C11','Slab memory is zeroed as it is freed',
 'With zero-on-free enabled, freeing a slab allocation of non-zero size overwrites the whole slot except the canary with zeros before the slot enters the quarantine or becomes available again, on every path that frees (free, sized free, delete, realloc). With it disabled, the contents are left alone.',
 ['inputs','histories','configurations'],'every freeing path, size class and build configuration',
 'Tests look at the contents of one or two slots after free.',
 [H],[('memset in deallocate_small',f'{H}: deallocate_small')])
prop('C12','Write-after-free is detected when a slot is reused',
 'With the write-after-free check enabled, whenever a slot that may have been used before is handed out again (from a partially used or a cached empty slab), every byte of it that the caller can use is first verified to be zero, and the process aborts otherwise. The slots of a slab that did not stay mapped, and zero-size allocations, need no check.',
 ['inputs','histories','configurations'],'every reuse path and size class, every corrupted byte offset',
 'Tests write one byte in one class and reuse through one path.',
 [H],[('write_after_free_check',f'{H}: allocate_small')])
prop('C13','Freed slots are delayed by the random and FIFO quarantines',
 'With slab quarantines configured, a freed slot is not reusable until it has passed through them: it is swapped with a uniformly random element of the class\'s random array and what drops out is put in the class\'s FIFO ring, and only what drops out of the last enabled stage becomes available; while inside, the slot stays marked as in use and as quarantined. Index ranges cover exactly the configured length scaled to the size class, never beyond the storage, for every permitted configuration.',
 ['histories','inputs','configurations'],'every history of frees, class, and permitted quarantine length',
 'Tests use the default lengths and see only that immediate reuse does not happen.',
 [H,'random.c'],[('quarantine_random / quarantine_queue',f'{H}: deallocate_small')])
prop('C14','Freed large allocations become inaccessible and are held in quarantine',
 'When a large allocation, or the tail cut off by shrinking one, below the skip threshold is freed, its pages are first replaced by an inaccessible mapping (or purged if that fails); then the range including its guards enters the random and FIFO quarantine, and only ranges dropping out of the quarantine are unmapped, each exactly once and in full. At or above the threshold, or with the quarantine disabled, the range with its guards is unmapped directly.',
 ['histories','inputs','fault_sequences','configurations'],'every history of large frees, every failing kernel call',
 'Tests check one faulting access after a large free.',
 [H,'pages.c'],[('regions_quarantine_deallocate_pages, deallocate_pages',f'{H}, pages.c')])
prop('C15','Unused slabs go back to the kernel and become inaccessible',
 'A slab whose last slot is freed is kept accessible only while the class\'s total of cached empty slabs stays within the fixed limit; otherwise its whole range is replaced by a fresh inaccessible mapping and it enters the free-slab queue through a random swap, leaving in FIFO order; if replacing it fails it is purged and cached instead. A slab taken from that queue, or used for the first time, has its whole range made accessible before any of its memory is touched or handed out, and each slab is on exactly the list that matches its state.',
 ['histories','fault_sequences','configurations','inputs'],'every history of frees and allocations and every failing kernel call',
 'Tests never free enough slabs, nor fail kernel calls, to check list membership and protection.',
 [H],[('empty_slabs/free_slabs/free_slabs_quarantine',f'{H}: deallocate_small, allocate_small, enqueue_free_slab, h_malloc_trim')])
prop('C16','Zero-size allocations are never accessible',
 'Requests for zero bytes (other than with an alignment above a page, which are served as large blocks) are served from their own size class whose slabs are never made readable or writable, and no allocator path reads or writes memory in them (no canary, zeroing, checking or copying). They can be freed and queried like other blocks, and report a usable size of zero.',
 ['inputs','histories','configurations'],'every API function that can serve or receive a zero-size block, every path',
 'Two tests touch one zero-size block obtained from a fresh slab.',
 [H],[('non_zero_size / requested_size guards, is_zero_size',f'{H}: allocate_small, deallocate_small')])
prop('C17','Large allocations are fenced by inaccessible guards on both sides',
 'Every large allocation (and the allocator\'s own metadata) is reserved as one inaccessible mapping consisting of a random, at least one page long guard, the usable pages and a guard of the same size, and only the usable pages are ever made accessible. This holds for aligned allocations and after in-place shrinking; freeing or moving releases exactly the usable pages and both guards.',
 ['inputs','fault_sequences','configurations','histories'],'every size, alignment, guard size, and partial failure',
 'Tests read one byte past the end of one large allocation.',
 [H,'pages.c'],[('allocate_pages, allocate_pages_aligned, deallocate_pages, get_guard_size',f'pages.c, {H}')])
prop('C18','Slabs stay in their class region, with guard slabs and random bases',
 'Each size class of each arena owns a disjoint region of one big inaccessible reservation, its slabs start at an independently random page-aligned offset that leaves at least a page free on both sides, and slabs are created only within the class region\'s capacity and with their bookkeeping accessible. After every configured number of consecutive slabs one slab location is skipped and never made accessible.',
 ['histories','configurations','inputs'],'every class, arena, number of slabs, and permitted region size / guard interval',
 'Tests allocate far too little to reach capacity and do not look at skipped slabs in any but the default configuration.',
 [H],[('alloc_metadata, init_slow_path class_region_start',f'{H}')])
prop('C19','No metadata is stored in, or taken from, user memory',
 'The allocator writes to the memory of allocations only zeros, canaries and data copied from another allocation, never a pointer, size or other bookkeeping. Nothing read from the memory of an allocation is ever used as a pointer, index or size, or for any decision other than aborting; bookkeeping lives only in the separate metadata reservation.',
 ['programs','histories','inputs','configurations'],'every load and store the allocator makes through an address in an allocation',
 'An information-flow statement over all code paths; tests only see benign runs.',
 [H],[('struct slab_metadata and region table are out of line',f'{H}')])
prop('C20','Memory tags isolate neighbouring, previous and freed slots (ARM MTE)',
 'When memory tagging is built in and enabled, every slab allocation of non-zero size is given, over its whole slot, a random tag that excludes the reserved tag, the slot\'s previous tag and both neighbours\' recorded tags, the new tag is recorded for that slot, and the returned pointer carries it; freeing retags the whole slot with the reserved tag. Pointers passed in have their tag stripped before they are interpreted, and slab memory is mapped with tagging enabled, when it is reserved and when a slab is given back to the system to be reused later.',
 ['inputs','histories','configurations'],'every allocation and free path and class in builds with tagging',
 'The tag tests need an ARM device and are not part of the test suite here.',
 [H,'memtag.h','arm_mte.h','util.h'],[('tag_and_clear_slab_slot, untag_pointer',f'{H}, memtag.h')])
prop('C21','Metadata is unsealed only inside the allocator (protection keys)',
 'In builds that seal metadata with memory protection keys, every entry point makes the metadata accessible to the thread before its first access to it and makes it inaccessible again before returning, on every path. While it is accessible nothing outside the allocator is called, initialisation seals it before it returns, and metadata pages are always made writable under the protection key while user pages never are.',
 ['inputs','fault_sequences','schedules','configurations'],'every path of every entry point, including failure paths, in the sealed configuration',
 'The sealed configuration is not built by the tests at all.',
 [H,'memory.c'],[('thread_unseal_metadata/thread_seal_metadata, memory_protect_rw_metadata',f'{H}, memory.c')])
prop('C22','Failed allocation reports ENOMEM and changes nothing',
 'When memory cannot be provided, malloc, calloc, realloc, aligned_alloc, memalign, valloc and pvalloc return NULL with errno set to ENOMEM and posix_memalign returns ENOMEM leaving its output alone; no error is lost or turned into a success. A failed call leaves no half-made state: no slot marked used, no table entry, no list or counter change, and no mapping left behind (as far as unmapping itself succeeds). No call ever unmaps or replaces addresses it has already given back to the system, which may belong to another thread by then.',
 ['fault_sequences','inputs','configurations'],'each kernel call that can fail with ENOMEM, in each call of each API function',
 'The single out-of-memory test uses an impossible size; no kernel call is ever made to fail.',
 [H,'pages.c','memory.c'],[('error returns of memory_* and allocate_pages*',f'{H}, pages.c, memory.c')])
prop('C23','Size arithmetic never wraps into a too small allocation',
 'For every combination of sizes, counts and alignments passed to the API, either the call fails cleanly or the block is at least as large as requested (count times size for calloc): no multiplication, rounding, canary or guard addition may wrap around to a smaller size. Requests up to the largest slab class are always served by slabs (unless aligned above a page, which are always large blocks) and larger ones never are.',
 ['inputs','configurations'],'all 64-bit sizes, counts and alignments',
 'One impossible size is tested.',
 [H,'pages.c','util.h'],[('__builtin_*_overflow, zero-on-wrap checks',f'{H}, pages.c')])
prop('C24','free preserves errno',
 'free (and unsized delete) leaves errno as it found it, even when a kernel request that maps, unmaps, protects or purges memory on its behalf fails.',
 ['fault_sequences','inputs','histories'],'every path through free and every kernel call failing with ENOMEM',
 'Tests never check errno and no kernel call fails in them.',
 [H],[('saved_errno',f'{H}: h_free, deallocate_small')])
prop('C25','realloc keeps the old block on failure and its data on success',
 'If realloc returns NULL, the old block is still allocated and its contents and usable size are unchanged. If it succeeds, the result holds the old contents up to the smaller of old and new size, copied or moved before the old block is released, and if it returns a different address the old block, small or large and however it was allocated, is released exactly once through the matching mechanism.',
 ['inputs','fault_sequences','histories','configurations'],'every old and new size and allocation kind, with any kernel call failing',
 'Two realloc tests cover two size pairs without failures.',
 [H],[('h_realloc',f'{H}: h_realloc')])
prop('C26','calloc memory is zero in every configuration',
 'Memory returned by calloc reads as zero over the full requested size in every build configuration, whether it comes from fresh pages, zeroed-on-free slots or reused unzeroed slots.',
 ['configurations','histories','inputs'],'every size, history and build configuration',
 'Tests use only the default configuration, where zero-on-free makes it true by accident.',
 [H],[('memset in h_calloc when !ZERO_ON_FREE',f'{H}: h_calloc')])
prop('C27','Aligned allocation honours or rejects the alignment',
 'The aligned allocation functions reject with EINVAL every alignment that is not a power of two (posix_memalign also those smaller than a pointer) without allocating, and otherwise return an address that is a multiple of the alignment; valloc and pvalloc return page-aligned blocks, pvalloc with the size rounded up to pages. Every other non-zero-size block is at least 16-byte aligned.',
 ['inputs','configurations'],'all sizes and alignments',
 'No stable test uses aligned allocation.',
 [H,'pages.c'],[('allocate_aligned, get_size_info_align, allocate_pages_aligned',f'{H}, pages.c')])
prop('C28','The library replaces the whole malloc interface and nothing else',
 'The library exports every allocation, deallocation and query function of the C library\'s malloc interface and every replaceable C++ operator new and delete, each implemented by this allocator and aliases doing the same as their originals, so no block can come from one allocator and be freed by another. It exports no other symbol. Functions of that interface it does not offer (malloc_get_state, malloc_set_state, mallopt, malloc_info with options) report failure and change nothing.',
 ['programs','configurations'],'every program, calling any function of the interface in any combination',
 'Tests call a few of the functions.',
 ['include/h_malloc.h',H,'new.cc'],[('EXPORT, ALIAS, name mapping macros','include/h_malloc.h, util.h')])
prop('C29','C++ operator new and delete follow their contract',
 'Every throwing operator new returns non-null or throws bad_alloc; every nothrow form returns null instead of throwing; on exhaustion the installed new-handler is called and the allocation retried with the same size and alignment until it succeeds, the handler is absent, or it throws bad_alloc. Every delete form releases exactly the pointer it is given, and size and alignment arguments are passed on unchanged.',
 ['inputs','fault_sequences','programs'],'every operator form, with any sequence of allocation failures and handlers',
 'One test uses one delete operator; failures are never injected.',
 ['new.cc'],[('new_impl, handle_out_of_memory','new.cc')])
prop('C30','Usable size covers the request and is really usable',
 'malloc_usable_size returns 0 for NULL and zero-size blocks, and otherwise a size at least as large as requested that excludes the canary and lies within the block\'s accessible memory; it aborts for pointers that are not the start of a live slab allocation.',
 ['inputs','histories','configurations'],'every block and every invalid pointer in the slab region',
 'Tests try five pointers.',
 [H],[('h_malloc_usable_size, memory_corruption_check_small',f'{H}')])
prop('C31','Object size queries return valid upper bounds and never fault on valid pointers',
 'malloc_object_size and malloc_object_size_fast return 0 for NULL, and for every pointer into a live allocation (including interior pointers and zero-size blocks) they return a bound not smaller than the accessible bytes from that pointer to the end of the caller\'s memory, without aborting. malloc_object_size aborts for free or quarantined slots; the fast variant takes no lock and reads only immutable state.',
 ['inputs','histories','configurations'],'every live block, interior offset and class',
 'Tests query two pointers.',
 [H],[('h_malloc_object_size(_fast)',f'{H}')])
prop('C32','Statistics account for every allocation exactly once',
 'With statistics enabled, on every path each successful slab or large allocation adds its block size (and one to the allocation count) once and each deallocation subtracts the same amount once; shrinking and moving large blocks adjust by exactly the difference, and slab totals change exactly when slabs become accessible or are given back. The reporting functions sum each arena, class and the large total exactly once, for every allocation function.',
 ['histories','inputs','configurations','fault_sequences'],'every sequence of API calls including failures',
 'Statistics are disabled in the tested build; two tests print them without an oracle.',
 [H],[('stats_* helpers, h_mallinfo2, h_malloc_info',f'{H}')])
prop('C33','Unexpected kernel errors are fatal and expected ones are handled',
 'Every failure of mmap, munmap, mprotect, mremap or madvise with an error other than ENOMEM aborts the process. An ENOMEM failure is always reported to the code that issued the request, which either propagates it or falls back to something that keeps the heap consistent (unmapping what was mapped, purging what could not be protected); it is ignored only where nothing but releasing address space or labelling was intended.',
 ['fault_sequences','inputs','configurations'],'every kernel call site and every errno',
 'No test makes a kernel call fail.',
 ['memory.c','pages.c',H],[('memory_* wrappers and their callers','memory.c')])
prop('C34','Fatal errors always terminate, without using the heap',
 'When corruption or misuse is detected the process is terminated by abort after a best-effort message to standard error; the report path never returns, allocates memory, takes a lock or uses stdio, even if writing fails or is interrupted.',
 ['fault_sequences','inputs'],'every result of write (short, interrupted, failing) and every detecting site',
 'Tests see only successful writes.',
 ['util.c'],[('fatal_error, write_full','util.c')])
prop('C35','Only the documented system calls with the documented flags are used',
 'The allocator itself makes only the kernel requests its documentation lists for seccomp policies, with exactly the listed protections and flags: mappings are private, anonymous and created inaccessible, protections are only none, read or read-write (never executable), fixed mappings only replace memory the allocator already owns, and the legacy brk heap and files are never used.',
 ['programs','inputs','configurations'],'every call leaving the library on every path and configuration',
 'Tests do not observe system calls.',
 ['README.md','memory.c','random.c','util.c',H],[('memory.c wrappers are the only callers','memory.c')])
prop('C36','Random state is seeded from the OS, separate per class, and reseeded',
 'Each size class of each arena and the large allocator has its own generator, keyed independently from a generator that was itself seeded with fresh bytes from the operating system; seeding never proceeds with missing bytes. No generator outputs the same bytes twice, reads beyond the bytes generated, or produces more than the reseed interval before taking a new key from the operating system.',
 ['histories','inputs','fault_sequences','configurations'],'every sequence of draws of any widths; every short or interrupted getrandom',
 'Output looks random in tests whatever the seeding discipline.',
 ['random.c','random.h',H],[('random_state_init*, refill, get_random_*','random.c')])
prop('C37','The generator is exactly the ChaCha8 keystream',
 'For every key, nonce, block counter and length the generator\'s bytes are the keystream of the ChaCha cipher with 8 rounds: standard constants, little-endian key, nonce and output, and a 64-bit block counter that advances by one per 64-byte block.',
 ['inputs'],'all keys, nonces, counters and lengths',
 'There are no test vectors in the test suite.',
 ['chacha.c','chacha.h'],[('chacha_keysetup, chacha_ivsetup, chacha_keystream_bytes','chacha.c')])
prop('C38','Bounded random numbers are in range and unbiased',
 'Random numbers drawn below a bound are always strictly below it and uniformly distributed over the whole range for every bound (values that would introduce bias are rejected and redrawn), and the bound passed by each caller is the intended one, never truncated to fewer bits, in every permitted configuration.',
 ['inputs','configurations'],'every bound representable and every permitted configuration',
 'Tests do not exercise the generator; bias and truncated bounds are invisible to them.',
 ['random.c',H],[('get_random_u16_uniform, get_random_u64_uniform (Lemire)','random.c')])
prop('C39','Size class tables are consistent',
 'The size classes increase strictly, are multiples of 16, follow the documented spacing so that rounding up wastes less than the documented fraction, and end at the documented maximum in each configuration; every class has a slot count that fits the slot bitmaps, a slab size of whole pages holding all its slots, the documented slab geometry, and a label naming its size.',
 ['configurations','inputs'],'every class in every configuration',
 'Tests touch a few classes; a wrong table entry for another class would go unnoticed.',
 [H,'README.md','calculate_waste.py'],[('size_classes, size_class_slots, size_class_labels',f'{H}')])
prop('C40','Each request is served from the smallest sufficient size class',
 'For every requested size up to the slab maximum (after adding room for the canary) the block comes from the smallest size class that is large enough, and from the smallest one that is also a multiple of the alignment for aligned requests; larger requests are rounded up to the documented large size class, or to whole pages when large classes are disabled.',
 ['inputs','configurations'],'all sizes and alignments in every configuration',
 'Tests sample a handful of sizes of the whole range.',
 [H,'util.h'],[('get_size_info, get_size_info_align, get_large_size_class',f'{H}')])
prop('C41','Slot bookkeeping is exact and in bounds',
 'For every slot of every class, marking it used or free or quarantined changes exactly that slot\'s own bit (and the used count by one) inside the slab\'s bitmap, and testing it reads exactly that bit. The slot chosen for an allocation is always one of the slab\'s slots and was free, the address returned is exactly that slot of that slab, and a slab is considered full or empty exactly when all or none of its slots are used.',
 ['inputs','histories','configurations'],'every slot index, slot count and bitmap content',
 'Tests exercise few slots; 256-slot, non-multiple-of-64 and randomised paths are data dependent.',
 [H],[('set_used_slot, clear_used_slot, is_used_slot, get_free_slot, has_free_slots, is_free_slab',f'{H}')],[('bitmap','slot usage',f'{H}: struct slab_metadata')])
prop('C42','The large-allocation table never loses or duplicates an entry',
 'Insertion, lookup, deletion and growth of the table of large allocations use the same hash, the same probe direction and the current table size; insertion writes only an empty entry and always leaves free ones, growth carries over every entry into cleared memory and switches to it only when it is usable, and deletion closes the gap so later lookups still find every remaining entry.',
 ['histories','inputs','fault_sequences'],'every history of inserts and deletes, table size and hash collision pattern',
 'Tests keep a few large allocations alive, so collisions and growth hardly happen.',
 [H,'pages.h'],[('regions_insert, regions_find, regions_delete, regions_grow',f'{H}')])
prop('C43','Arena numbers are always valid and blocks return to their arena',
 'Every thread is assigned one arena, in rotation, below the configured number of arenas, before its first allocation, and uses it for all of its allocations; a block is always freed, resized and queried in the arena and size class its address belongs to, whichever thread does it.',
 ['schedules','histories','configurations'],'every number of threads, any thread freeing any block, every arena count',
 'Two multi-threaded tests run four threads with the default arena count.',
 [H],[('init, slab_size_class, ARENA_SIZE layout',f'{H}')])
prop('C44','malloc_trim releases only unused slabs',
 'malloc_trim gives back exactly cached empty slabs (and purges quarantined blocks of the extended classes): for each, its whole range becomes inaccessible, it moves from the cache to the free-slab queue and the cache total shrinks by its size; if the kernel refuses, that slab stays cached. It returns 1 if at least one slab was released and 0 otherwise, and does nothing on an uninitialised allocator.',
 ['histories','fault_sequences','configurations'],'every heap state and failing kernel call',
 'No test calls malloc_trim.',
 [H],[('h_malloc_trim',f'{H}')])
prop('C45','Live allocations never overlap and reuse is linearisable',
 'In every concurrent history the address ranges of simultaneously live allocations are disjoint, and all operations on a block appear to happen in one order.',
 ['schedules','histories'],'every concurrent history',
 'Quantifies over whole histories and schedules.',
 [H],[('the combination of C01, C13, C15, C17, C18, C41, C42',f'{H}')])
prop('C46','Layout and reuse are unpredictable to an attacker',
 'The addresses, gaps, slots, canaries and delays chosen have the documented entropy and cannot be predicted from other outputs.',
 ['histories','inputs'],'every attacker strategy',
 'A statistical and cryptographic statement.',
 [H,'random.c'],[('ChaCha8 based randomisation','random.c')])
prop('C47','Every operation terminates and makes progress',
 'Every API call completes in a bounded number of steps provided the kernel responds and lock holders run: probing, slot search and retry loops always end.',
 ['inputs','histories','schedules'],'every reachable heap state',
 'A liveness statement over reachable states.',
 [H,'random.c'],[('load factor of the region table; a partial slab has a free slot',f'{H}')])
prop('C48','Overhead stays within the documented bounds',
 'Memory overhead (metadata, guards, quarantines, caches) and time per operation stay within the documented bounds for every workload.',
 ['histories','configurations'],'every workload',
 'A quantitative statement over workloads.',
 [H,'README.md'],[('size classes, cache limits',f'{H}')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
