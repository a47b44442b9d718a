mut("stats_before_lock", "C01", (H, "    mutex_lock(&c->lock);\n\n    stats_small_deallocate(c, size);\n\n    struct slab_metadata *metadata = get_metadata(c, p);", "    struct slab_metadata *metadata = get_metadata(c, p);\n    mutex_lock(&c->lock);\n\n    stats_small_deallocate(c, size);\n"))
mut("stale_region_remap", "C01", (H, "                region->size = size;\n                stats_large_deallocate(ra, old_size - size);\n                mutex_unlock(&ra->lock);", "                mutex_unlock(&ra->lock);\n                mutex_lock(&ra->lock);\n                region->size = size;\n                stats_large_deallocate(ra, old_size - size);\n                mutex_unlock(&ra->lock);"))
mut("wrong_arena_lock", "C01", (H, "static inline void memory_corruption_check_small(const void *p) {\n    struct slab_size_class_info size_class_info = slab_size_class(p);\n    size_t class = size_class_info.class;\n    struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];", "static inline void memory_corruption_check_small(const void *p) {\n    struct slab_size_class_info size_class_info = slab_size_class(p);\n    size_t class = size_class_info.class;\n    struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];\n    struct size_class *l = &ro.size_class_metadata[0][class];"), (H, "    size_t slab_size = get_slab_size(get_slots(class), size);\n\n    mutex_lock(&c->lock);\n\n    const struct slab_metadata *metadata = get_metadata(c, p);\n    void *slab = get_slab(c, slab_size, metadata);\n    size_t slot = libdivide_u32_do((const char *)p - (const char *)slab, &c->size_divisor);\n\n    if (unlikely(slot_pointer(size, slab, slot) != p)) {\n        fatal_error(\"invalid unaligned malloc_usable_size\");", "    size_t slab_size = get_slab_size(get_slots(class), size);\n\n    mutex_lock(&l->lock);\n\n    const struct slab_metadata *metadata = get_metadata(c, p);\n    void *slab = get_slab(c, slab_size, metadata);\n    size_t slot = libdivide_u32_do((const char *)p - (const char *)slab, &c->size_divisor);\n\n    if (unlikely(slot_pointer(size, slab, slot) != p)) {\n        fatal_error(\"invalid unaligned malloc_usable_size\");"))
mut("plain_counter", "C01", (H, "static atomic_uint thread_arena_counter = 0;", "static unsigned thread_arena_counter = 0;"))
mut("leak_lock_oom", "C02", (H, "        if (unlikely(metadata == NULL)) {\n            mutex_unlock(&c->lock);", "        if (unlikely(metadata == NULL)) {"))
mut("leak_lock_quar", "C02", (H, "    if (queue_substitute == NULL) {\n        mutex_unlock(&c->lock);\n        return;", "    if (queue_substitute == NULL) {\n        return;"))
mut("trim_break_locked", "C02", (H, "                if (map_unused_slab(slab, slab_size)) {\n                    break;", "                if (map_unused_slab(slab, slab_size)) {\n                    goto out;"), (H, "            mutex_unlock(&c->lock);\n        }\n    }\n\n    thread_seal_metadata();\n\n    return is_trimmed;", "            mutex_unlock(&c->lock);\n        }\n    }\nout:\n\n    thread_seal_metadata();\n\n    return is_trimmed;"))
mut("atfork_locked", "C03", (H, "    mutex_unlock(&init_lock);\n\n    // the metadata key", "    // the metadata key"), (H, "        fatal_error(\"pthread_atfork failed\");\n    }", "        fatal_error(\"pthread_atfork failed\");\n    }\n    mutex_unlock(&init_lock);"))
mut("quarantine_under_lock", "C03", (H, "    regions_delete(region);\n    stats_large_deallocate(ra, size);\n    mutex_unlock(&ra->lock);\n\n    regions_quarantine_deallocate_pages(p, size, guard_size);", "    regions_delete(region);\n    stats_large_deallocate(ra, size);\n    regions_quarantine_deallocate_pages(p, size, guard_size);\n    mutex_unlock(&ra->lock);"))
mut("info_print_locked", "C03", (H, "                size_t allocated = c->allocated;\n                mutex_unlock(&c->lock);\n", "                size_t allocated = c->allocated;\n"), (H, "                            allocated);\n                }\n", "                            allocated);\n                }\n                mutex_unlock(&c->lock);\n"))
mut("child_no_reseed", "C04", (H, "            mutex_init(&c->lock);\n            random_state_init(&c->rng);\n        }\n    }\n    thread_seal_metadata();", "            mutex_init(&c->lock);\n            if (class) random_state_init(&c->rng);\n        }\n    }\n    thread_seal_metadata();"))
mut("fork_skip_class0", "C04", (H, "        for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {\n            mutex_lock(", "        for (unsigned class = 1; class < N_SIZE_CLASSES; class++) {\n            mutex_lock("))
mut("fork_swap", "C04", (H, "pthread_atfork(full_lock, full_unlock, post_fork_child)", "pthread_atfork(full_lock, full_unlock, full_unlock)"))
mut("publish_early", "C05", (H, "    deallocate_pages(rng, sizeof(struct random_state), PAGE_SIZE);\n\n    atomic_store_explicit(&ro.slab_region_end, slab_region_end, memory_order_release);\n", "    deallocate_pages(rng, sizeof(struct random_state), PAGE_SIZE);\n"), (H, "    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        ro.size_class_metadata[arena] =", "    atomic_store_explicit(&ro.slab_region_end, slab_region_end, memory_order_release);\n    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        ro.size_class_metadata[arena] ="))
mut("no_recheck", "C05", (H, "    if (unlikely(is_init())) {\n        mutex_unlock(&init_lock);\n        return;\n    }\n", ""))
mut("relaxed_publish", "C05", (H, "slab_region_end, memory_order_release)", "slab_region_end, memory_order_relaxed)"))
mut("trim_uninit", "C05", (H, "    if (unlikely(!is_init())) {\n        return 0;\n    }\n", ""))
mut("usable_uninit", "C05", (H, "    enforce_init();\n    thread_unseal_metadata();\n\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    const struct region_metadata *region = regions_find(p);\n    if (unlikely(region == NULL)) {\n        fatal_error(\"invalid malloc_usable_size\");", "    thread_unseal_metadata();\n\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    const struct region_metadata *region = regions_find(p);\n    if (unlikely(region == NULL)) {\n        fatal_error(\"invalid malloc_usable_size\");"))
mut("not_sealed", "C06", (H, "    if (unlikely(memory_protect_ro(&ro, sizeof(ro)))) {\n        fatal_error(\"failed to protect allocator data\");\n    }\n    memory_set_name(&ro", "    memory_set_name(&ro"))
mut("cache_ptr", "C06", (H, "static void full_lock(void) {", "static struct region_allocator *cached_ra;\n\nstatic void full_lock(void) {\n    cached_ra = ro.region_allocator;"))
mut("seal_ignored", "C06", (H, "    if (unlikely(memory_protect_ro(&ro, sizeof(ro)))) {\n        fatal_error(\"failed to protect allocator data\");\n    }\n    memory_set_name(&ro", "    memory_protect_ro(&ro, sizeof(ro));\n    memory_set_name(&ro"))
eqv("helper_lock", (H, "static inline void *allocate_small(", "static void lock_class(struct size_class *c) {\n    mutex_lock(&c->lock);\n}\n\nstatic inline void *allocate_small("), (H, "    mutex_lock(&c->lock);\n\n    if (c->partial_slabs == NULL) {", "    lock_class(c);\n\n    if (c->partial_slabs == NULL) {"))
eqv("slot_helper", (H, "static inline void *allocate_small(", "static inline void *take_slot(struct size_class *c, struct slab_metadata *metadata, size_t slots, size_t size, size_t slab_size) {\n    size_t slot = get_free_slot(&c->rng, slots, metadata);\n    set_used_slot(metadata, slot);\n    return slot_pointer(size, get_slab(c, slab_size, metadata), slot);\n}\n\nstatic inline void *allocate_small("), (H, "            void *slab = get_slab(c, slab_size, metadata);\n            size_t slot = get_free_slot(&c->rng, slots, metadata);\n            set_used_slot(metadata, slot);\n            void *p = slot_pointer(size, slab, slot);\n            if (requested_size) {\n                write_after_free_check(p, size - canary_size);\n                set_canary(metadata, p, size);\n#ifdef HAS_ARM_MTE\n                if (likely(is_memtag_enabled())) {\n                    p = tag_and_clear_slab_slot(metadata, p, slot, size);\n                }\n#endif\n            }", "            void *p = take_slot(c, metadata, slots, size, slab_size);\n            if (requested_size) {\n                write_after_free_check(p, size - canary_size);\n                set_canary(metadata, p, size);\n#ifdef HAS_ARM_MTE\n                if (likely(is_memtag_enabled())) {\n                    size_t slot = ((char *)p - (char *)get_slab(c, slab_size, metadata)) / size;\n                    p = tag_and_clear_slab_slot(metadata, p, slot, size);\n                }\n#endif\n            }"))
eqv("loop_down", (H, "    for (size_t i = 0; i < size; i += sizeof(u64)) {\n        if (unlikely(*(const u64 *)(const void *)(p + i))) {", "    const char *end = p + size;\n    for (; p < end; p += sizeof(u64)) {\n        if (unlikely(*(const u64 *)(const void *)p)) {"))
eqv("while_probe", (H, "    void *q = ra->regions[index].p;\n    while (q != NULL) {\n        index = (index - 1) & mask;\n        q = ra->regions[index].p;\n    }", "    for (; ra->regions[index].p != NULL; index = (index - 1) & mask) {\n    }"))
eqv("handler_while", (H, "    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {\n            mutex_lock(&ro.size_class_metadata[arena][class].lock);\n        }\n    }", "    unsigned arena = 0;\n    while (arena < N_ARENA) {\n        struct size_class *first = ro.size_class_metadata[arena];\n        for (struct size_class *c = first; c < first + N_SIZE_CLASSES; c++) {\n            mutex_lock(&c->lock);\n        }\n        arena++;\n    }"))
eqv("dealloc_reorder", (H, "    bool is_zero_size = size == 0;\n    if (unlikely(is_zero_size)) {\n        size = 16;\n    }\n    size_t slots = get_slots(class);\n    size_t slab_size = get_slab_size(slots, size);\n\n    mutex_lock(&c->lock);\n\n    stats_small_deallocate(c, size);\n\n    struct slab_metadata *metadata = get_metadata(c, p);", "    const bool is_zero_size = class == 0;\n    if (unlikely(is_zero_size)) {\n        size = 16;\n    }\n    size_t slots = get_slots(class);\n    size_t slab_size = get_slab_size(slots, size);\n\n    mutex_lock(&c->lock);\n\n    struct slab_metadata *metadata = get_metadata(c, p);\n    stats_small_deallocate(c, size);"))
RN = "random.c"
CH = "chacha.c"
mut("seed_no_advance", "C36", (RN, "        buf = (char *)buf + r;\n", ""))
mut("seed_nofatal", "C36", (RN, "if (r <= 0) {", "if (r == 0) {"))
mut("seed_eagain", "C36", (RN, "r == -1 && errno == EINTR", "r == -1"))
mut("seed_short", "C36", (RN, "    get_random_seed(rnd, sizeof(rnd));", "    get_random_seed(rnd, CHACHA_KEY_SIZE);"))
mut("seed_nonblock", "C36", (RN, "getrandom(buf, size, 0)", "getrandom(buf, size, 4)"))
mut("iv_overlap", "C36", (RN, "    get_random_bytes(source, rnd, sizeof(rnd));\n    chacha_keysetup(&state->ctx, rnd);\n    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);", "    get_random_bytes(source, rnd, sizeof(rnd));\n    chacha_keysetup(&state->ctx, rnd);\n    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE - 8);"))
mut("init_index", "C36", (RN, "    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);\n    state->index = RANDOM_CACHE_SIZE;", "    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);\n    state->index = 0;"))
mut("reseed_never", "C36", (RN, "state->reseed >= RANDOM_RESEED_SIZE", "state->reseed > RANDOM_RESEED_SIZE"))
mut("reseed_nocount", "C36", (RN, "    state->reseed += RANDOM_CACHE_SIZE;\n", "    state->reseed++;\n"))
mut("refill_half", "C36", (RN, "chacha_keystream_bytes(&state->ctx, state->cache, RANDOM_CACHE_SIZE);", "chacha_keystream_bytes(&state->ctx, state->cache, RANDOM_CACHE_SIZE / 2);"))
mut("remaining_off", "C36", (RN, "    if (remaining < sizeof(value)) {\n        refill(state);\n    }\n    memcpy(&value, state->cache + state->index, sizeof(value));\n    state->index += sizeof(value);\n    return value;\n}\n\n// See Fast Random Integer Generation in an Interval by Daniel Lemire\nu64", "    if (remaining < sizeof(u32)) {\n        refill(state);\n    }\n    memcpy(&value, state->cache + state->index, sizeof(value));\n    state->index += sizeof(value);\n    return value;\n}\n\n// See Fast Random Integer Generation in an Interval by Daniel Lemire\nu64"))
mut("no_consume", "C36", (RN, "        state->index += copy_size;\n", ""))
mut("consume_less", "C36", (RN, "    state->index += sizeof(value);\n    return value;\n}\n\n// See Fast Random Integer Generation in an Interval by Daniel Lemire\nu16", "    state->index += 1;\n    return value;\n}\n\n// See Fast Random Integer Generation in an Interval by Daniel Lemire\nu16"))
mut("rng_class0", "C36", (H, "size_t index = get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH);", "size_t index = get_random_u16_uniform(&ro.size_class_metadata[0][0].rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH);"))
mut("lemire_le", "C38", (RN, "        while (leftover < threshold) {\n            random = get_random_u16(state);", "        while (leftover <= threshold) {\n            random = get_random_u16(state);"))
mut("lemire_nothresh", "C38", (RN, "u64 threshold = -bound % bound;", "u64 threshold = bound % -bound;"))
mut("lemire_modulo", "C38", (RN, "    return multiresult >> 16;", "    return random % bound;"))
mut("lemire_leftover", "C38", (RN, "            leftover = (u16)multiresult;\n", ""))
mut("lemire_stale", "C38", (RN, "            multiresult = random * bound;\n            leftover = (u16)multiresult;", "            leftover = (u16)(random * bound);"))
mut("bound_trunc", "C38", (H, "size_t index = get_random_u64_uniform(&ra->rng, REGION_QUARANTINE_RANDOM_LENGTH);", "size_t index = get_random_u16_uniform(&ra->rng, REGION_QUARANTINE_RANDOM_LENGTH);"))
mut("chacha_rounds", "C37", (CH, "rounds = 8", "rounds = 6"))
mut("chacha_counter", "C37", (CH, "        if (!j12) {\n            j13 = PLUSONE(j13);", "        if (!j13) {\n            j13 = PLUSONE(j13);"))
mut("chacha_rot", "C37", (CH, "d = ROTATE(XOR(d, a), 8)", "d = ROTATE(XOR(d, b), 8)"))
mut("chacha_tail", "C37", (CH, "                for (unsigned i = 0; i < bytes; ++i) {", "                for (unsigned i = 0; i + 1 < bytes; ++i) {"))
mut("chacha_nosave", "C37", (CH, "            x->input[13] = j13;\n", ""))
mut("chacha_key", "C37", (CH, "U8TO32_LITTLE(k + 12)", "U8TO32_LITTLE(k + 8)"))
eqv("seed_for", (RN, "    while (size) {\n        ssize_t r;", "    for (; size > 0; ) {\n        ssize_t r;"))
eqv("refill_order", (RN, "    chacha_keystream_bytes(&state->ctx, state->cache, RANDOM_CACHE_SIZE);\n    state->index = 0;\n    state->reseed += RANDOM_CACHE_SIZE;", "    state->reseed += RANDOM_CACHE_SIZE;\n    state->index = 0;\n    chacha_keystream_bytes(&state->ctx, state->cache, RANDOM_CACHE_SIZE);"))
eqv("init_helper", (RN, "void random_state_init(struct random_state *state) {", "static void set_key(struct random_state *state, u8 *rnd) {\n    chacha_keysetup(&state->ctx, rnd);\n    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);\n    state->reseed = 0;\n    state->index = RANDOM_CACHE_SIZE;\n}\n\nvoid random_state_init(struct random_state *state) {"), (RN, "    chacha_keysetup(&state->ctx, rnd);\n    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);\n    state->index = RANDOM_CACHE_SIZE;\n    state->reseed = 0;", "    set_key(state, rnd);"))
eqv("lemire_do", (RN, "        while (leftover < threshold) {\n            random = get_random_u16(state);\n            multiresult = random * bound;\n            leftover = (u16)multiresult;\n        }", "        for (;;) {\n            if (leftover >= threshold) {\n                break;\n            }\n            random = get_random_u16(state);\n            multiresult = bound * random;\n            leftover = (u16)multiresult;\n        }"))
eqv("bytes_cond", (RN, "        size_t remaining = RANDOM_CACHE_SIZE - state->index;\n        size_t copy_size = min(size, remaining);", "        size_t copy_size = size;\n        if (copy_size > RANDOM_CACHE_SIZE - state->index) {\n            copy_size = RANDOM_CACHE_SIZE - state->index;\n        }"))
eqv("draw_helper", (RN, "u16 get_random_u16(struct random_state *state) {\n    u16 value;\n    unsigned remaining = RANDOM_CACHE_SIZE - state->index;\n    if (remaining < sizeof(value)) {\n        refill(state);\n    }", "static void ensure(struct random_state *state, unsigned n) {\n    if (state->index + n > RANDOM_CACHE_SIZE) {\n        refill(state);\n    }\n}\n\nu16 get_random_u16(struct random_state *state) {\n    u16 value;\n    ensure(state, sizeof(value));"))
eqv("chacha_memcpy", (CH, "                for (unsigned i = 0; i < bytes; ++i) {\n                    ctarget[i] = c[i];\n                }", "                __builtin_memcpy(ctarget, c, bytes);"))
# sizes
mut("slots_swapped", "C39", (H, "    /* 1024 */ 8, 8, 8, 8", "    /* 1024 */ 8, 8, 8, 16"))
mut("class_value", "C39", (H, "    /* 32 */ 160, 192, 224, 256,", "    /* 32 */ 160, 192, 232, 256,"))
mut("class_off_by_one", "C40", (H, "    size_t spacing_class_shift = log2u64(size - 1) - 2;", "    size_t spacing_class_shift = log2u64(size) - 2;"))
mut("align_ge", "C40", (H, "if (size <= real_size && !", "if (size < real_size && !"))
mut("large_round_page", "C40", (H, "    size_t spacing_class_shift = log2u64(size - 1) - 2;\n", "    size_t spacing_class_shift = log2u64(size - 1) - 3;\n"))
mut("calloc_add", "C23", (H, "    if (unlikely(__builtin_mul_overflow(nmemb, size, &total_size))) {\n        errno = ENOMEM;\n        return NULL;\n    }\n", "    total_size = nmemb * size;\n"))
mut("guard_overflow", "C23", ("pages.c", "__builtin_add_overflow(*total_size, guard_size, total_size)", "(*total_size += guard_size, false)"))
mut("guard_overflow2", "C23", ("pages.c", "    if (unlikely(__builtin_add_overflow(usable_size, alignment - PAGE_SIZE, &alloc_size))) {\n        errno = ENOMEM;\n        return NULL;\n    }\n", "    alloc_size = usable_size + (alignment - PAGE_SIZE);\n"))
mut("no_round_check", "C23", (H, "        size = get_large_size_class(size);\n        if (unlikely(!size)) {\n            errno = ENOMEM;\n            return NULL;\n        }\n    }\n\n    void *old_orig", "        size = get_large_size_class(size);\n    }\n\n    void *old_orig"))
mut("align_any", "C27", (H, "    if ((alignment - 1) & alignment || alignment < min_alignment) {", "    if (alignment < min_alignment) {"))
mut("align_min4", "C27", (H, "return alloc_aligned(memptr, alignment, size, sizeof(void *));", "return alloc_aligned(memptr, alignment, size, sizeof(int));"))
mut("align_page_le", "C27", (H, "    if (alignment <= PAGE_SIZE) {\n        if (size", "    if (alignment <= 2 * PAGE_SIZE) {\n        if (size"))
mut("valloc_16", "C27", (H, "EXPORT void *h_valloc(size_t size) {\n    return alloc_aligned_simple(PAGE_SIZE, size);", "EXPORT void *h_valloc(size_t size) {\n    return alloc_aligned_simple(min_align, size);"))
# table
mut("find_forward", "C42", (H, "    while (r != p && r != NULL) {\n        index = (index - 1) & mask;", "    while (r != p && r != NULL) {\n        index = (index + 1) & mask;"))
mut("delete_le", "C42", (H, "(i <= r && r < j)", "(i < r && r < j)"))
mut("delete_wrap", "C42", (H, "(r < j && j < i)", "(r <= j && j < i)"))
mut("delete_nowrap", "C42", (H, " || (j < i && i <= r)", ""))
mut("grow_mask", "C42", (H, "    size_t mask = newtotal - 1;", "    size_t mask = ra->total - 1;"))
mut("grow_skip0", "C42", (H, "    for (size_t i = 0; i < ra->total; i++) {\n        const void *q", "    for (size_t i = 1; i < ra->total; i++) {\n        const void *q"))
mut("grow_free", "C42", (H, "ra->free = ra->free + ra->total;", "ra->free = newtotal;"))
mut("grow_never", "C42", (H, "    if (ra->free * 4 < ra->total) {\n        if (regions_grow()) {\n            return 1;\n        }\n    }", "    if (ra->free * 4 < ra->total && ra->total < 4096) {\n        regions_grow();\n    }"))
mut("no_purge_old", "C42", (H, "        // the table is expected to be empty when this range is used again\n        memory_purge(ra->regions, ra->total * sizeof(struct region_metadata));\n", ""))
mut("find_no_enforce", "C08", (H, "    enforce_init();\n    thread_unseal_metadata();\n\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    const struct region_metadata *region = regions_find(p);\n    if (unlikely(region == NULL)) {\n        fatal_error(\"invalid malloc_usable_size", "    thread_unseal_metadata();\n\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    const struct region_metadata *region = regions_find(p);\n    if (unlikely(region == NULL)) {\n        fatal_error(\"invalid malloc_usable_size"))
mut("find_page", "C08", (H, "    return (r == p && r != NULL) ? &ra->regions[index] : NULL;", "    return r != NULL ? &ra->regions[index] : NULL;"), (H, "    while (r != p && r != NULL) {", "    while (r != NULL && r != (void *)((uintptr_t)p & ~(uintptr_t)(PAGE_SIZE - 1))) {"))
mut("no_delete", "C08", (H, "    regions_delete(region);\n    stats_large_deallocate(ra, size);\n    mutex_unlock(&ra->lock);\n\n    regions_quarantine", "    stats_large_deallocate(ra, size);\n    mutex_unlock(&ra->lock);\n\n    regions_quarantine"))
eqv("delete_flag", (H, "            if ((i <= r && r < j) || (r < j && j < i) || (j < i && i <= r)) {\n                continue;\n            }\n            ra->regions[j] = ra->regions[i];\n            break;", "            bool stays = i < j ? (i <= r && r < j) : (r < j || i <= r);\n            if (!stays) {\n                ra->regions[j] = ra->regions[i];\n                break;\n            }"))
eqv("probe_helper", (H, "static struct region_metadata *regions_find(const void *p) {", "static size_t region_slot(const void *p, size_t mask) {\n    return hash_page(p) & mask;\n}\n\nstatic struct region_metadata *regions_find(const void *p) {"), (H, "    size_t index = hash_page(p) & mask;\n    void *r = ra", "    size_t index = region_slot(p, mask);\n    void *r = ra"))
eqv("large_class_order", (H, "static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, size_t size, size_t min_alignment) {\n    if ((alignment - 1) & alignment || alignment < min_alignment) {", "static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, size_t size, size_t min_alignment) {\n    if (alignment < min_alignment || (alignment & (alignment - 1)) != 0) {"))

mut("realloc_copy_canary", "C25", (H, "size_t old_usable = old_is_slab && old_size > 0 ? old_size - canary_size : old_size;", "size_t old_usable = old_size;"))
mut("realloc_free_twice", "C25", (H, "    if (new == NULL) {\n        thread_seal_metadata();\n        return NULL;\n    }\n    // large", "    if (new == NULL) {\n        if (old_is_slab) deallocate_small(old, NULL);\n        thread_seal_metadata();\n        return NULL;\n    }\n    // large"))
mut("realloc_delete_first", "C25", (H, "            if (copy_size >= MREMAP_MOVE_THRESHOLD) {\n                void *new = allocate_large(size);\n                if (new == NULL) {\n                    thread_seal_metadata();\n                    return NULL;\n                }\n\n                mutex_lock(&ra->lock);\n                struct region_metadata *region = regions_find(old);\n                if (unlikely(region == NULL)) {\n                    fatal_error(\"invalid realloc\");\n                }\n                regions_delete(region);\n                stats_large_deallocate(ra, old_size);\n                mutex_unlock(&ra->lock);\n", "            if (copy_size >= MREMAP_MOVE_THRESHOLD) {\n                mutex_lock(&ra->lock);\n                struct region_metadata *region = regions_find(old);\n                if (unlikely(region == NULL)) {\n                    fatal_error(\"invalid realloc\");\n                }\n                regions_delete(region);\n                stats_large_deallocate(ra, old_size);\n                mutex_unlock(&ra->lock);\n\n                void *new = allocate_large(size);\n                if (new == NULL) {\n                    thread_seal_metadata();\n                    return NULL;\n                }\n"))
mut("realloc_remap_nocopy", "C25", (H, "                    memcpy(new, old, copy_size);\n                    deallocate_pages", "                    deallocate_pages"))
mut("realloc_remap_keepguard", "C25", (H, "                    memory_unmap((char *)old + page_align(old_size), old_guard_size);\n", ""))
mut("realloc_large_by_size", "C25", (H, "    if (old_is_slab) {\n        deallocate_small(old, NULL);\n    } else {", "    if (old_size <= max_slab_size_class) {\n        deallocate_small(old, NULL);\n    } else {"))
mut("shrink_guard_fresh", "C17", (H, "                if (memory_map_fixed(new_end, old_guard_size)) {", "                if (memory_map_fixed(new_end, PAGE_SIZE)) {"))
mut("shrink_tail_start", "C14", (H, "regions_quarantine_deallocate_pages(new_guard_end, old_size - size, 0);", "regions_quarantine_deallocate_pages(new_end, old_size - size, 0);"))
mut("quar_no_guard", "C14", (H, "    struct quarantine_info target =\n        (struct quarantine_info){(char *)p - guard_size, size + guard_size * 2};", "    struct quarantine_info target =\n        (struct quarantine_info){(char *)p - guard_size, size + guard_size};"))
mut("quar_no_map", "C14", (H, "    if (unlikely(memory_map_fixed(p, size))) {\n        memory_purge(p, size);\n    } else {", "    {\n        memory_purge(p, size);"))
mut("quar_purge_lost", "C14", (H, "    if (unlikely(memory_map_fixed(p, size))) {\n        memory_purge(p, size);\n    } else {", "    if (!memory_map_fixed(p, size)) {"))
mut("guard_fixed", "C17", (H, "return (get_random_u64_uniform(state, size / PAGE_SIZE / GUARD_SIZE_DIVISOR) + 1) * PAGE_SIZE;", "return (size / PAGE_SIZE / GUARD_SIZE_DIVISOR / 2 + 1) * PAGE_SIZE;"))
mut("guard_zero", "C17", (H, "return (get_random_u64_uniform(state, size / PAGE_SIZE / GUARD_SIZE_DIVISOR) + 1) * PAGE_SIZE;", "return (get_random_u64_uniform(state, size / PAGE_SIZE / GUARD_SIZE_DIVISOR + 1)) * PAGE_SIZE;"))
mut("large_insert_leak", "C22", (H, "        deallocate_pages(p, size, guard_size);\n        return ENOMEM;", "        memory_unmap(p, size);\n        return ENOMEM;"))
mut("aligned_err_lost", "C22", (H, "    if (unlikely(p == NULL)) {\n        return ENOMEM;\n    }\n\n    mutex_lock(&ra->lock);", "    if (unlikely(p == NULL)) {\n        return ENOMEM;\n    }\n    *memptr = p;\n\n    mutex_lock(&ra->lock);"))
mut("pages_leak", "C22", ("pages.c", "    if (unprotect && unlikely(memory_protect_rw(usable, usable_size))) {\n        memory_unmap(", "    if (unprotect && unlikely(memory_protect_rw(usable, usable_size))) {\n        if (0) memory_unmap("))
mut("free_slab_popped", "C22", (H, "            if (requested_size && memory_protect_rw(slab, slab_size)) {\n                mutex_unlock(&c->lock);\n                return NULL;\n            }\n\n            c->free_slabs_head = c->free_slabs_head->next;", "            c->free_slabs_head = c->free_slabs_head->next;\n            if (requested_size && memory_protect_rw(slab, slab_size)) {\n                mutex_unlock(&c->lock);\n                return NULL;\n            }\n"))
mut("count_early", "C22", (H, "    if (non_zero_size && memory_protect_rw(slab, slab_size)) {\n        return NULL;\n    }\n    c->metadata_count++;", "    c->metadata_count++;\n    if (non_zero_size && memory_protect_rw(slab, slab_size)) {\n        return NULL;\n    }"))
mut("max_noerrno", "C22", (H, "        if (unlikely(c->metadata_count >= metadata_max)) {\n            errno = ENOMEM;\n            return NULL;", "        if (unlikely(c->metadata_count >= metadata_max)) {\n            return NULL;"))
mut("simple_noerrno", "C22", (H, "        errno = ret;\n", ""))
mut("calloc_short", "C26", (H, "        memset(p, 0, total_size - canary_size);", "        memset(p, 0, nmemb * size & ~(size_t)7);"))
mut("calloc_small_only", "C26", (H, "total_size && total_size <= max_slab_size_class) {", "total_size && total_size < max_slab_size_class) {"))
mut("calloc_over", "C26", (H, "        memset(p, 0, total_size - canary_size);", "        memset(p, 0, get_size_info(total_size).size);"))
mut("unmap_notest", "C33", ("memory.c", "    bool ret = munmap(ptr, size);\n    if (unlikely(ret) && errno != ENOMEM) {\n        fatal_error(\"non-ENOMEM munmap failure\");\n    }\n    return ret;", "    return munmap(ptr, size);"))
mut("purge_einval", "C33", ("memory.c", "    int ret = madvise(ptr, size, MADV_DONTNEED);\n    if (unlikely(ret) && errno != ENOMEM) {", "    int ret = madvise(ptr, size, MADV_DONTNEED);\n    if (unlikely(ret) && errno != ENOMEM && errno != EINVAL) {"))
mut("protect_swallow", "C33", (H, "            if (requested_size && memory_protect_rw(slab, slab_size)) {\n                mutex_unlock(&c->lock);\n                return NULL;\n            }", "            if (requested_size) memory_protect_rw(slab, slab_size);"))
mut("map_null", "C33", ("memory.c", "    if (unlikely(p == MAP_FAILED)) {\n        if (errno != ENOMEM) {\n            fatal_error(\"non-ENOMEM mmap failure\");\n        }\n        return NULL;\n    }\n    return p;", "    if (unlikely(p == MAP_FAILED)) {\n        return NULL;\n    }\n    return p;"))

mut("zero_large_classes", "C26", (H, "        if (ZERO_ON_FREE && !skip_zero) {", "        if (ZERO_ON_FREE && !skip_zero && size <= 65536) {"))
mut("usable_canary_kept", "C30", (H, "        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 0;\n    }\n\n    enforce_init();", "        return slab_usable_size(p);\n    }\n\n    enforce_init();"))
mut("usable_no_quar", "C30", (H, "#if SLAB_QUARANTINE\n    if (unlikely(is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"invalid malloc_usable_size (quarantine)\");\n    }\n#endif\n", ""))
mut("usable_arena", "C30", (H, "        arena = offset / ARENA_SIZE;\n        offset -= arena * ARENA_SIZE;\n    }\n    return (struct slab_size_class_info){arena,", "        arena = offset / ARENA_SIZE;\n    }\n    return (struct slab_size_class_info){arena,"))
mut("usable_large_round", "C30", (H, "    size_t size = region->size;\n    mutex_unlock(&ra->lock);\n\n    thread_seal_metadata();\n    return size;\n}\n\nEXPORT size_t h_malloc_object_size(", "    size_t size = region->size + region->guard_size;\n    mutex_unlock(&ra->lock);\n\n    thread_seal_metadata();\n    return size;\n}\n\nEXPORT size_t h_malloc_object_size("))
mut("usable_zero_size", "C30 C31", (H, "        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 0;\n    }\n\n    enforce_init();", "        size_t size = slab_usable_size(p);\n        return size - canary_size;\n    }\n\n    enforce_init();"), (H, "        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 0;\n    }\n\n    if (unlikely(slab_region_end == NULL)) {\n        return 0;", "        size_t size = slab_usable_size(p);\n        return size ? size - canary_size * 2 : 0;\n    }\n\n    if (unlikely(slab_region_end == NULL)) {\n        return 0;"))
mut("objsize_twice", "C31", (H, "return size ? size - canary_size - offset : 0;", "return size > canary_size * 2 + offset ? size - canary_size * 2 - offset : 0;"))
mut("objsize_unaligned", "C31", (H, "    if (unlikely(!is_used_slot(metadata, slot))) {\n            fatal_error(\"invalid malloc_object_size\");", "    if (unlikely(!is_used_slot(metadata, slot) || slot_pointer(size_class, slab, slot) != p)) {\n            fatal_error(\"invalid malloc_object_size\");"))
mut("objsize_quar", "C31", (H, "            fatal_error(\"invalid malloc_object_size (quarantine)\");\n", ""))
mut("objsize_large_null", "C31", (H, "size_t size = region == NULL ? SIZE_MAX : region->size;", "size_t size = region == NULL ? 0 : region->size;"))
mut("fast_checks", "C31", (H, "    if (p < slab_region_end && p >= ro.slab_region_start) {\n        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 0;\n    }\n\n    if (unlikely(slab_region_end == NULL)) {\n        return 0;", "    if (p < slab_region_end && p >= ro.slab_region_start) {\n        memory_corruption_check_small(p);\n        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 0;\n    }\n\n    if (unlikely(slab_region_end == NULL)) {\n        return 0;"))
mut("trim_total_once", "C44", (H, "                c->empty_slabs_total -= slab_size;\n\n                enqueue_free_slab(c, trimmed);", "                c->empty_slabs_total = 0;\n\n                enqueue_free_slab(c, trimmed);"))
mut("trim_flag", "C44", (H, "                is_trimmed = true;\n            }\n            c->empty_slabs = iterator;", "                is_trimmed = iterator == NULL;\n            }\n            c->empty_slabs = iterator;"))
mut("trim_lost_rest", "C44", (H, "            c->empty_slabs = iterator;\n", "            c->empty_slabs = NULL;\n"))
mut("trim_next_late", "C44", (H, "                struct slab_metadata *trimmed = iterator;\n                iterator = iterator->next;\n                c->empty_slabs_total -= slab_size;\n\n                enqueue_free_slab(c, trimmed);\n", "                struct slab_metadata *trimmed = iterator;\n                c->empty_slabs_total -= slab_size;\n\n                enqueue_free_slab(c, trimmed);\n                iterator = iterator->next;\n"))
mut("trim_last_class", "C44", (H, "        for (unsigned class = 1; class < N_SIZE_CLASSES; class++) {\n            struct size_class *c = &ro.size_class_metadata[arena][class];\n            size_t size = size_classes[class];\n            size_t slab_size", "        for (unsigned class = 1; class < N_SIZE_CLASSES - 1; class++) {\n            struct size_class *c = &ro.size_class_metadata[arena][class];\n            size_t size = size_classes[class];\n            size_t slab_size"))
mut("trim_purge_len", "C44", (H, "memory_purge(p, size);\n                    }\n                }\n#endif\n\n#if SLAB_QUARANTINE_QUEUE_LENGTH > 0\n                size_t slab_quarantine_queue_length = SLAB_QUARANTINE_QUEUE_LENGTH << quarantine_shift;", "memory_purge(p, size * 2);\n                    }\n                }\n#endif\n\n#if SLAB_QUARANTINE_QUEUE_LENGTH > 0\n                size_t slab_quarantine_queue_length = SLAB_QUARANTINE_QUEUE_LENGTH << quarantine_shift;"))
mut("trim_unprotect", "C44", (H, "                if (map_unused_slab(slab, slab_size)) {\n                    break;", "                if (memory_purge(slab, slab_size)) {\n                    break;"))
eqv("trim_helper", (H, "EXPORT int h_malloc_trim(UNUSED size_t pad) {", "static bool trim_class(struct size_class *c, unsigned class, size_t slab_size) {\n    bool any = false;\n    while (c->empty_slabs != NULL) {\n        struct slab_metadata *m = c->empty_slabs;\n        void *slab = get_slab(c, slab_size, m);\n        if (map_unused_slab(slab, slab_size)) {\n            return any;\n        }\n        c->empty_slabs = m->next;\n        label_slab(slab, slab_size, class);\n        stats_slab_deallocate(c, slab_size);\n        c->empty_slabs_total -= slab_size;\n        enqueue_free_slab(c, m);\n        any = true;\n    }\n    return any;\n}\n\nEXPORT int h_malloc_trim(UNUSED size_t pad) {"), (H, "            struct slab_metadata *iterator = c->empty_slabs;\n            while (iterator) {\n                void *slab = get_slab(c, slab_size, iterator);\n                if (map_unused_slab(slab, slab_size)) {\n                    break;\n                }\n                label_slab(slab, slab_size, class);\n                stats_slab_deallocate(c, slab_size);\n\n                struct slab_metadata *trimmed = iterator;\n                iterator = iterator->next;\n                c->empty_slabs_total -= slab_size;\n\n                enqueue_free_slab(c, trimmed);\n\n                is_trimmed = true;\n            }\n            c->empty_slabs = iterator;\n", "            is_trimmed |= trim_class(c, class, slab_size);\n"))
eqv("trim_class_outer", (H, "    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        // skip zero byte size class since there's nothing to change\n        for (unsigned class = 1; class < N_SIZE_CLASSES; class++) {", "    for (unsigned class = N_SIZE_CLASSES - 1; class > 0; class--) {\n        for (unsigned arena = 0; arena < N_ARENA; arena++) {"))
eqv("objsize_helper", (H, "EXPORT size_t h_malloc_object_size(const void *p) {", "static size_t offset_in_live_slot(const void *p) {\n    struct slab_size_class_info info = slab_size_class(p);\n    size_t size = size_classes[info.class] ? size_classes[info.class] : 16;\n    struct size_class *c = &ro.size_class_metadata[info.arena][info.class];\n    mutex_lock(&c->lock);\n    const struct slab_metadata *metadata = get_metadata(c, p);\n    const char *slab = get_slab(c, get_slab_size(get_slots(info.class), size), metadata);\n    size_t slot = libdivide_u32_do((const char *)p - slab, &c->size_divisor);\n    if (unlikely(!is_used_slot(metadata, slot))) {\n        fatal_error(\"invalid malloc_object_size\");\n    }\n#if SLAB_QUARANTINE\n    if (unlikely(is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"invalid malloc_object_size (quarantine)\");\n    }\n#endif\n    mutex_unlock(&c->lock);\n    return (const char *)p - slab - slot * size;\n}\n\nEXPORT size_t h_malloc_object_size(const void *p) {"), (H, "        struct slab_size_class_info size_class_info = slab_size_class(p);\n        size_t class = size_class_info.class;\n        size_t size_class = size_classes[class];\n        if (unlikely(size_class == 0)) {\n            size_class = 16;\n        }\n        struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];\n\n        mutex_lock(&c->lock);\n\n        const struct slab_metadata *metadata = get_metadata(c, p);\n        size_t slab_size = get_slab_size(get_slots(class), size_class);\n        void *slab = get_slab(c, slab_size, metadata);\n        size_t slot = libdivide_u32_do((const char *)p - (const char *)slab, &c->size_divisor);\n\n        if (unlikely(!is_used_slot(metadata, slot))) {\n            fatal_error(\"invalid malloc_object_size\");\n        }\n\n#if SLAB_QUARANTINE\n        if (unlikely(is_quarantine_slot(metadata, slot))) {\n            fatal_error(\"invalid malloc_object_size (quarantine)\");\n        }\n#endif\n\n        void *start = slot_pointer(size_class, slab, slot);\n        size_t offset = (const char *)p - (const char *)start;\n\n        mutex_unlock(&c->lock);\n        thread_seal_metadata();", "        size_t offset = offset_in_live_slot(p);\n        thread_seal_metadata();"))
mut("arena_no_mod", "C43", (H, "thread_arena = arena = thread_arena_counter++ % N_ARENA;", "thread_arena = arena = thread_arena_counter++ & (N_ARENA - 1);"))
mut("arena_not_kept", "C43", (H, "thread_arena = arena = thread_arena_counter++ % N_ARENA;", "arena = thread_arena_counter++ % N_ARENA;"))
mut("arena_pre", "C43", (H, "thread_arena = arena = thread_arena_counter++ % N_ARENA;", "thread_arena = arena = (thread_arena_counter += 2) % N_ARENA;"))
mut("arena_zero_start", "C43", (H, "static _Thread_local unsigned thread_arena = N_ARENA;", "static _Thread_local unsigned thread_arena = 0;"))
mut("arena_free_own", "C43", (H, "    struct slab_size_class_info size_class_info = slab_size_class(p);\n    size_t class = size_class_info.class;\n\n    struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];\n    size_t size = size_classes[class];\n    if (expected_size", "    struct slab_size_class_info size_class_info = slab_size_class(p);\n    size_t class = size_class_info.class;\n\n    struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];\n#if N_ARENA > 1\n    if (class == 0) c = &ro.size_class_metadata[thread_arena % N_ARENA][class];\n#endif\n    size_t size = size_classes[class];\n    if (expected_size"))
mut("arena_realloc_zero", "C43", (H, "    void *new = allocate(init(), size);", "    void *new = allocate(size <= 16 ? 0 : init(), size);"))
mut("stat_zero_skip", "C32", (H, "static inline void stats_small_deallocate(UNUSED struct size_class *c, UNUSED size_t size) {\n#if CONFIG_STATS\n    c->allocated -= size;", "static inline void stats_small_deallocate(UNUSED struct size_class *c, UNUSED size_t size) {\n#if CONFIG_STATS\n    c->allocated -= size == 16 ? 0 : size;"))
mut("stat_free_slab", "C32", (H, "            stats_slab_allocate(c, slab_size);\n            stats_small_allocate(c, size);", "            stats_small_allocate(c, size);"))
mut("stat_fail_counted", "C32", (H, "    regions_delete(region);\n    stats_large_deallocate(ra, size);\n    mutex_unlock(&ra->lock);\n\n    regions_quarantine", "    regions_delete(region);\n    stats_large_deallocate(ra, region->size);\n    mutex_unlock(&ra->lock);\n\n    regions_quarantine"))
mut("stat_shrink", "C32", (H, "stats_large_deallocate(ra, old_size - size);", "stats_large_deallocate(ra, old_size - size - old_guard_size);"))
mut("stat_trim", "C32", (H, "                label_slab(slab, slab_size, class);\n                stats_slab_deallocate(c, slab_size);\n\n                struct slab_metadata *trimmed", "                label_slab(slab, slab_size, class);\n\n                struct slab_metadata *trimmed"))
mut("stat_aligned", "C32", (H, "    stats_large_allocate(ra, size);\n    mutex_unlock(&ra->lock);\n\n    *memptr = p;", "    stats_large_allocate(ra, size + alignment);\n    mutex_unlock(&ra->lock);\n\n    *memptr = p;"))
mut("stat_info_class0", "C32", (H, "        for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {\n            struct size_class *c = &ro.size_class_metadata[arena][class];\n\n            mutex_lock(&c->lock);\n            info.hblkhd += c->slab_allocated;\n            info.uordblks += c->allocated;", "        for (unsigned class = 1; class < N_SIZE_CLASSES; class++) {\n            struct size_class *c = &ro.size_class_metadata[arena][class];\n\n            mutex_lock(&c->lock);\n            info.hblkhd += c->slab_allocated;\n            info.uordblks += c->allocated;"))
mut("stat_info_swap", "C32", (H, "class, size_classes[class], nmalloc, ndalloc, slab_allocated,\n                            allocated);", "class, size_classes[class], ndalloc, nmalloc, slab_allocated,\n                            allocated);"))
mut("stat_bin_bound", "C32", (H, "    if (arena < N_ARENA && bin < N_SIZE_CLASSES) {", "    if (arena < N_ARENA && bin < N_SIZE_CLASSES - 1) {"))
eqv("init_helper", (H, "static inline unsigned init(void) {", "#if N_ARENA > 1\nstatic unsigned next_arena(void) {\n    unsigned ticket = thread_arena_counter++;\n    return ticket % N_ARENA;\n}\n#endif\n\nstatic inline unsigned init(void) {"), (H, "    thread_arena = arena = thread_arena_counter++ % N_ARENA;", "    arena = next_arena();\n    thread_arena = arena;"))
eqv("mallinfo_sum", (H, "    info.hblkhd += ra->allocated;\n    info.uordblks += ra->allocated;\n    mutex_unlock(&ra->lock);\n", "    size_t mapped = ra->allocated;\n    size_t used = mapped;\n    mutex_unlock(&ra->lock);\n"), (H, "            info.hblkhd += c->slab_allocated;\n            info.uordblks += c->allocated;\n            mutex_unlock(&c->lock);\n        }\n    }\n\n    info.fordblks = info.hblkhd - info.uordblks;\n    info.usmblks = info.hblkhd;", "            mapped += c->slab_allocated;\n            used += c->allocated;\n            mutex_unlock(&c->lock);\n        }\n    }\n\n    info.hblkhd = mapped;\n    info.uordblks = used;\n    info.fordblks = mapped - used;\n    info.usmblks = mapped;"))
# C18
mut("place_gap_zero", "C18", (H, "size_t gap = (get_random_u64_uniform(rng, bound) + 1) * PAGE_SIZE;", "size_t gap = get_random_u64_uniform(rng, bound) * PAGE_SIZE;"))
mut("place_bound_one", "C18", (H, "size_t bound = (REAL_CLASS_REGION_SIZE - CLASS_REGION_SIZE) / PAGE_SIZE - 1;", "size_t bound = (REAL_CLASS_REGION_SIZE - CLASS_REGION_SIZE) / PAGE_SIZE;"))
mut("place_same_gap", "C18", (H, "    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        ro.size_class_metadata[arena] =", "    size_t bound = (REAL_CLASS_REGION_SIZE - CLASS_REGION_SIZE) / PAGE_SIZE - 1;\n    size_t gap = (get_random_u64_uniform(rng, bound) + 1) * PAGE_SIZE;\n    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        ro.size_class_metadata[arena] ="), (H, "            size_t bound = (REAL_CLASS_REGION_SIZE - CLASS_REGION_SIZE) / PAGE_SIZE - 1;\n            size_t gap = (get_random_u64_uniform(rng, bound) + 1) * PAGE_SIZE;\n", ""))
mut("place_capacity", "C18", (H, "        if (unlikely(c->metadata_count >= metadata_max)) {", "        if (unlikely(c->metadata_count > metadata_max)) {"))
mut("place_real_capacity", "C18", (H, "    return CLASS_REGION_SIZE / slab_size;", "    return REAL_CLASS_REGION_SIZE / slab_size;"))
mut("place_clamp", "C18", (H, "        if (allocate > metadata_max) {\n            allocate = metadata_max;\n        }\n", ""))
mut("place_half_protect", "C18", (H, "memory_protect_rw_metadata(c->slab_info, allocate * sizeof(struct slab_metadata))", "memory_protect_rw_metadata(c->slab_info, allocate * sizeof(struct slab_metadata) / 2)"))
mut("place_no_guard", "C18", (H, "    if (c->metadata_count_unguarded >= GUARD_SLABS_INTERVAL) {", "    if (c->metadata_count_unguarded > GUARD_SLABS_INTERVAL) {"))
mut("place_guard_lost", "C18", (H, "        c->metadata_count++;\n        c->metadata_count_unguarded = 0;", "        if (c->metadata_count + 1 < c->metadata_allocated) {\n            c->metadata_count++;\n        }\n        c->metadata_count_unguarded = 0;"))
mut("place_protect_next", "C18", (H, "    if (non_zero_size && memory_protect_rw(slab, slab_size)) {", "    if (non_zero_size && memory_protect_rw(slab, c->metadata_count == 0 ? slab_size * 2 : slab_size)) {"))
mut("place_zero_rw", "C18", (H, "    if (non_zero_size && memory_protect_rw(slab, slab_size)) {", "    if (memory_protect_rw(slab, slab_size)) {"))
mut("place_growth_ge", "C18", (H, "    if (unlikely(c->metadata_count >= c->metadata_allocated)) {", "    if (unlikely(c->metadata_count > c->metadata_allocated)) {"))
mut("place_divider", "C18", (H, "            size_t slab_size = get_slab_size(get_slots(class), size);\n            c->slab_size_divisor = libdivide_u64_gen(slab_size);", "            size_t slab_size = get_slots(class) * size;\n            c->slab_size_divisor = libdivide_u64_gen(slab_size);"))
mut("place_info_shared", "C18", (H, "allocator_state->slab_info_mapping[arena][class].slab_info;", "allocator_state->slab_info_mapping[arena][class & ~1U].slab_info;"))
mut("place_arena_overlap", "C18", (H, "(char *)ro.slab_region_start + ARENA_SIZE * arena + REAL_CLASS_REGION_SIZE * class + gap;", "(char *)ro.slab_region_start + ARENA_SIZE * arena + CLASS_REGION_SIZE * class + gap;"))
eqv("alloc_metadata_helper", (H, "static struct slab_metadata *alloc_metadata(", "static bool grow_metadata(struct size_class *c, size_t limit) {\n    size_t target = c->metadata_allocated << 1;\n    if (target < PAGE_SIZE / sizeof(struct slab_metadata)) {\n        target = PAGE_SIZE / sizeof(struct slab_metadata);\n    }\n    target = min(target, limit);\n    if (memory_protect_rw_metadata(c->slab_info, target * sizeof(struct slab_metadata))) {\n        return false;\n    }\n    c->metadata_allocated = target;\n    return true;\n}\n\nstatic struct slab_metadata *alloc_metadata("), (H, "        size_t allocate = max(c->metadata_allocated * 2, PAGE_SIZE / sizeof(struct slab_metadata));\n        if (allocate > metadata_max) {\n            allocate = metadata_max;\n        }\n        if (unlikely(memory_protect_rw_metadata(c->slab_info, allocate * sizeof(struct slab_metadata)))) {\n            return NULL;\n        }\n        c->metadata_allocated = allocate;", "        if (unlikely(!grow_metadata(c, metadata_max))) {\n            return NULL;\n        }"))
eqv("guard_step", (H, "    c->metadata_count++;\n    c->metadata_count_unguarded++;\n    if (c->metadata_count_unguarded >= GUARD_SLABS_INTERVAL) {\n        c->metadata_count++;\n        c->metadata_count_unguarded = 0;\n    }", "    const bool skip = ++c->metadata_count_unguarded >= GUARD_SLABS_INTERVAL;\n    c->metadata_count += skip ? 2 : 1;\n    if (skip) {\n        c->metadata_count_unguarded = 0;\n    }"))
# C19
mut("taint_freelist", "C19", (H, "    if (c->partial_slabs == NULL) {\n        if (c->empty_slabs != NULL) {", "    if (c->partial_slabs == NULL) {\n        if (c->empty_slabs != NULL && c->empty_slabs->next == NULL && c->metadata_count > 9) {\n            *(u64 *)get_slab(c, slab_size, c->empty_slabs) = c->metadata_count;\n        }\n        if (c->empty_slabs != NULL) {"))
mut("taint_size_header", "C19", (H, "    size_t copy_size = min(size, old_size);", "    size_t copy_size = min(size, old_size);\n    if (size > (1UL << 40) && copy_size >= 8 && *(size_t *)old < copy_size) {\n        copy_size = *(size_t *)old;\n    }"))
mut("taint_canary_count", "C19", (H, "    memcpy((char *)p + size - canary_size, &metadata->canary_value, canary_size);", "    u64 v = metadata->canary_value ^ metadata->count;\n    memcpy((char *)p + size - canary_size, &v, canary_size);"))
mut("taint_fill", "C19", (H, "            memset(p, 0, size - canary_size);", "            memset(p, (int)slot & 1, size - canary_size);"))
mut("taint_skip", "C19", (H, "        if (unlikely(*(const u64 *)(const void *)(p + i))) {\n            fatal_error(\"detected write after free\");\n        }", "        if (unlikely(*(const u64 *)(const void *)(p + i))) {\n            if (i) fatal_error(\"detected write after free\");\n            return;\n        }"))
mut("taint_usable", "C19", (H, "    memory_corruption_check_small(p);", "    memory_corruption_check_small(p);\n    if (slab_usable_size(p) == 1024 && *(const size_t *)p < 16) {\n        return 16;\n    }"))
mut("taint_canary_recover", "C19", (H, "    if (unlikely(canary_value != metadata->canary_value)) {", "    if (unlikely(canary_value == 1)) {\n        ((struct slab_metadata *)(uintptr_t)metadata)->count--;\n        return;\n    }\n    if (unlikely(canary_value != metadata->canary_value)) {"))
eqv("canary_bytes", (H, "    u64 canary_value;\n    memcpy(&canary_value, (const char *)p + size - canary_size, canary_size);\n", "    u64 canary_value = *(const u64 *)(const void *)((const char *)p + size - canary_size);\n"))
eqv("waf_accumulate", (H, "    for (size_t i = 0; i < size; i += sizeof(u64)) {\n        if (unlikely(*(const u64 *)(const void *)(p + i))) {\n            fatal_error(\"detected write after free\");\n        }\n    }", "    u64 seen = 0;\n    for (size_t i = 0; i < size; i += sizeof(u64)) {\n        seen |= *(const u64 *)(const void *)(p + i);\n    }\n    if (unlikely(seen)) {\n        fatal_error(\"detected write after free\");\n    }"))
# C21
mut("seal_oom_open", "C21", (H, "                if (memory_map_fixed(new_end, old_guard_size)) {\n                    thread_seal_metadata();\n", "                if (memory_map_fixed(new_end, old_guard_size)) {\n"))
mut("seal_realloc_same", "C21", (H, "            mutex_unlock(&ra->lock);\n            thread_seal_metadata();\n            return old;", "            mutex_unlock(&ra->lock);\n            return old;"))
mut("seal_region_user", "C21", (H, "    if (memory_protect_rw_metadata(p, newsize)) {", "    if (memory_protect_rw(p, newsize)) {"))
mut("seal_slab_key", "C21", (H, "    if (non_zero_size && memory_protect_rw(slab, slab_size)) {", "    if (non_zero_size && memory_protect_rw_metadata(slab, slab_size)) {"))
mut("seal_readonly", "C21", (H, "    thread_set_metadata_access(PKEY_DISABLE_ACCESS);", "    thread_set_metadata_access(PKEY_DISABLE_WRITE);"))
mut("seal_fork_parent", "C21", (H, "            mutex_unlock(&ro.size_class_metadata[arena][class].lock);\n        }\n    }\n    thread_seal_metadata();", "            mutex_unlock(&ro.size_class_metadata[arena][class].lock);\n        }\n    }"))
mut("seal_early_peek", "C21", (H, "    enforce_init();\n    thread_unseal_metadata();\n\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    const struct region_metadata *region = regions_find(p);\n    if (unlikely(region == NULL)) {\n        fatal_error(\"invalid malloc_usable_size\");", "    enforce_init();\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    thread_unseal_metadata();\n    const struct region_metadata *region = regions_find(p);\n    if (unlikely(region == NULL)) {\n        fatal_error(\"invalid malloc_usable_size\");"))
mut("seal_before_init", "C21", (H, "    unsigned arena = init();\n    thread_unseal_metadata();", "    thread_unseal_metadata();\n    unsigned arena = init();"))
mut("seal_atfork_open", "C21", (H, "    thread_seal_metadata();\n\n    // may allocate", "    // may allocate"))
eqv("seal_negative_key", (H, "    if (ro.metadata_pkey == -1) {\n        return;\n    }\n    pkey_set(ro.metadata_pkey, access);", "    int key = ro.metadata_pkey;\n    if (key >= 0) {\n        pkey_set(key, access);\n    }"))
# C24
mut("errno_purge", "C24", (H, "            memory_purge(slab, slab_size);\n            errno = saved_errno;", "            memory_purge(slab, slab_size);"))
mut("errno_large", "C24", (H, "    int saved_errno = errno;\n    deallocate_large(p, NULL);\n    errno = saved_errno;", "    deallocate_large(p, NULL);"))
mut("errno_late", "C24", (H, "    int saved_errno = errno;\n    deallocate_large(p, NULL);\n    errno = saved_errno;", "    deallocate_large(p, NULL);\n    int saved_errno = errno;\n    errno = saved_errno;"))
mut("errno_zero", "C24", (H, "            int saved_errno = errno;\n            if (!map_unused_slab(slab, slab_size)) {", "            int saved_errno = 0;\n            if (!map_unused_slab(slab, slab_size)) {"))
eqv("errno_large_helper", (H, "// preserves errno\nEXPORT void h_free(", "static void release_large_quietly(void *p) {\n    const int before = errno;\n    deallocate_large(p, NULL);\n    errno = before;\n}\n\n// preserves errno\nEXPORT void h_free("), (H, "    int saved_errno = errno;\n    deallocate_large(p, NULL);\n    errno = saved_errno;", "    release_large_quietly(p);"))
# composites: many small behaviour-preserving edits at once
BITS = [
    (H, "static void set_used_slot(struct slab_metadata *metadata, size_t index) {\n    size_t bucket = index / U64_WIDTH;\n    metadata->bitmap[bucket] |= 1UL << (index - bucket * U64_WIDTH);",
        "static inline u64 slot_mask(size_t index) {\n    return 1UL << (index % U64_WIDTH);\n}\n\nstatic inline size_t slot_bucket(size_t index) {\n    return index / U64_WIDTH;\n}\n\nstatic void set_used_slot(struct slab_metadata *metadata, size_t index) {\n    metadata->bitmap[slot_bucket(index)] |= slot_mask(index);"),
    (H, "    size_t bucket = index / U64_WIDTH;\n    metadata->bitmap[bucket] &= ~(1UL << (index - bucket * U64_WIDTH));", "    metadata->bitmap[slot_bucket(index)] &= ~slot_mask(index);"),
    (H, "    size_t bucket = index / U64_WIDTH;\n    return (metadata->bitmap[bucket] >> (index - bucket * U64_WIDTH)) & 1UL;", "    return (metadata->bitmap[slot_bucket(index)] & slot_mask(index)) != 0;"),
    (H, "    size_t bucket = index / U64_WIDTH;\n    metadata->quarantine_bitmap[bucket] |= 1UL << (index - bucket * U64_WIDTH);", "    u64 *word = &metadata->quarantine_bitmap[slot_bucket(index)];\n    *word = *word | slot_mask(index);"),
    (H, "    size_t bucket = index / U64_WIDTH;\n    metadata->quarantine_bitmap[bucket] &= ~(1UL << (index - bucket * U64_WIDTH));", "    metadata->quarantine_bitmap[slot_bucket(index)] &= ~slot_mask(index);"),
    (H, "    size_t bucket = index / U64_WIDTH;\n    return (metadata->quarantine_bitmap[bucket] >> (index - bucket * U64_WIDTH)) & 1UL;", "    return metadata->quarantine_bitmap[slot_bucket(index)] & slot_mask(index) ? true : false;"),
    (H, "    return !metadata->count;", "    return metadata->count == 0;"),
    (H, "    size_t index = metadata - c->slab_info;\n    return (char *)c->class_region_start + (index * slab_size);", "    char *region = c->class_region_start;\n    return &region[(size_t)(metadata - c->slab_info) * slab_size];"),
    (H, "    if (unlikely(index >= c->metadata_allocated)) {\n        fatal_error(\"invalid free within a slab yet to be used\");\n    }\n    return c->slab_info + index;", "    if (likely(index < c->metadata_allocated)) {\n        return &c->slab_info[index];\n    }\n    fatal_error(\"invalid free within a slab yet to be used\");"),
    (H, "    memcpy((char *)p + size - canary_size, &metadata->canary_value, canary_size);", "    char *canary = (char *)p + (size - canary_size);\n    u64 value = metadata->canary_value;\n    memcpy(canary, &value, sizeof(value));"),
    (H, "    metadata->canary_value = get_random_u64(rng) & canary_mask;", "    u64 random = get_random_u64(rng);\n    metadata->canary_value = random & canary_mask;"),
    (H, "static u64 get_mask(size_t slots) {\n    return slots < U64_WIDTH ? ~0UL << slots : 0;", "static u64 get_mask(size_t slots) {\n    if (slots >= U64_WIDTH) {\n        return 0;\n    }\n    return ~((1UL << slots) - 1);"),
]
eqv("combo_bits", *BITS)
eqv("combo_search", (H, "        size_t i = first_bitmap;\n        u64 masked = metadata->bitmap[i];\n        masked |= random_split;\n        for (;;) {\n            if (i == slots / U64_WIDTH) {\n                masked |= get_mask(slots - i * U64_WIDTH);\n            }\n\n            if (masked != ~0UL) {\n                return ffz64(masked) - 1 + i * U64_WIDTH;\n            }\n\n            i = i == (slots - 1) / U64_WIDTH ? 0 : i + 1;\n            masked = metadata->bitmap[i];\n        }",
        "        size_t last = (slots - 1) / U64_WIDTH;\n        u64 skip = random_split;\n        for (size_t i = first_bitmap;; skip = 0) {\n            u64 masked = metadata->bitmap[i] | skip;\n            if (i == last) {\n                masked |= get_mask(slots - i * U64_WIDTH);\n            }\n            if (~masked) {\n                return i * U64_WIDTH + (size_t)__builtin_ctzl(~masked);\n            }\n            if (i == last) {\n                i = 0;\n            } else {\n                i++;\n            }\n        }"),
    (H, "    for (size_t i = 0; i < size; i += sizeof(u64)) {\n        if (unlikely(*(const u64 *)(const void *)(p + i))) {\n            fatal_error(\"detected write after free\");\n        }\n    }", "    const u64 *word = (const u64 *)(const void *)p;\n    size_t words = size / sizeof(u64);\n    while (words--) {\n        if (unlikely(*word++ != 0)) {\n            fatal_error(\"detected write after free\");\n        }\n    }"))
eqv("combo_lists",
    (H, "// preserves errno\nstatic inline void deallocate_small(", "static void push_partial(struct size_class *c, struct slab_metadata *metadata) {\n    struct slab_metadata *first = c->partial_slabs;\n    metadata->prev = NULL;\n    metadata->next = first;\n    if (first != NULL) {\n        first->prev = metadata;\n    }\n    c->partial_slabs = metadata;\n}\n\nstatic void unlink_partial(struct size_class *c, struct slab_metadata *metadata) {\n    struct slab_metadata *next = metadata->next;\n    struct slab_metadata *prev = metadata->prev;\n    if (prev == NULL) {\n        c->partial_slabs = next;\n    } else {\n        prev->next = next;\n    }\n    if (next != NULL) {\n        next->prev = prev;\n    }\n    metadata->prev = NULL;\n}\n\nstatic void push_empty(struct size_class *c, struct slab_metadata *metadata, size_t slab_size) {\n    c->empty_slabs_total += slab_size;\n    metadata->next = c->empty_slabs;\n    c->empty_slabs = metadata;\n}\n\n// preserves errno\nstatic inline void deallocate_small("),
    (H, "        metadata->next = c->partial_slabs;\n        metadata->prev = NULL;\n\n        if (c->partial_slabs) {\n            c->partial_slabs->prev = metadata;\n        }\n        c->partial_slabs = metadata;\n", "        push_partial(c, metadata);\n"),
    (H, "        if (metadata->prev) {\n            metadata->prev->next = metadata->next;\n        } else {\n            c->partial_slabs = metadata->next;\n        }\n        if (metadata->next) {\n            metadata->next->prev = metadata->prev;\n        }\n\n        metadata->prev = NULL;\n", "        unlink_partial(c, metadata);\n"),
    (H, "        metadata->next = c->empty_slabs;\n        c->empty_slabs = metadata;\n        c->empty_slabs_total += slab_size;\n    }\n\n    mutex_unlock(&c->lock);\n}", "        push_empty(c, metadata, slab_size);\n    }\n\n    mutex_unlock(&c->lock);\n}"),
    (H, "    if (substitute == NULL) {\n        return;\n    }\n\n    if (c->free_slabs_tail != NULL) {\n        c->free_slabs_tail->next = substitute;\n    } else {\n        c->free_slabs_head = substitute;\n    }\n    c->free_slabs_tail = substitute;", "    if (substitute != NULL) {\n        struct slab_metadata **link = c->free_slabs_tail == NULL ? &c->free_slabs_head : &c->free_slabs_tail->next;\n        *link = substitute;\n        c->free_slabs_tail = substitute;\n    }"),
    (H, "            c->free_slabs_head = c->free_slabs_head->next;\n            if (c->free_slabs_head == NULL) {\n                c->free_slabs_tail = NULL;\n            }\n\n            metadata->next = NULL;", "            struct slab_metadata *rest = metadata->next;\n            if (rest == NULL) {\n                c->free_slabs_tail = NULL;\n            }\n            c->free_slabs_head = rest;\n\n            metadata->next = NULL;"),
    (H, "            struct slab_metadata *metadata = c->empty_slabs;\n            c->empty_slabs = c->empty_slabs->next;\n            c->empty_slabs_total -= slab_size;\n", "            struct slab_metadata *metadata = c->empty_slabs;\n            c->empty_slabs_total -= slab_size;\n            c->empty_slabs = metadata->next;\n"),
    (H, "    if (!has_free_slots(slots, metadata)) {\n        c->partial_slabs = c->partial_slabs->next;\n        if (c->partial_slabs) {\n            c->partial_slabs->prev = NULL;\n        }\n    }\n", "    if (!has_free_slots(slots, metadata)) {\n        struct slab_metadata *next = metadata->next;\n        if (next != NULL) {\n            next->prev = NULL;\n        }\n        c->partial_slabs = next;\n    }\n"))
eqv("combo_alloc",
    (H, "static inline void *allocate_small(unsigned arena, size_t requested_size) {", "static inline void *take_slot(struct size_class *c, struct slab_metadata *metadata, size_t size, size_t slots, size_t slab_size,\n                              bool zero, bool used_before) {\n    size_t slot = get_free_slot(&c->rng, slots, metadata);\n    set_used_slot(metadata, slot);\n    void *p = slot_pointer(size, get_slab(c, slab_size, metadata), slot);\n    if (!zero) {\n        if (used_before) {\n            write_after_free_check(p, size - canary_size);\n        }\n        set_canary(metadata, p, size);\n#ifdef HAS_ARM_MTE\n        if (likely(is_memtag_enabled())) {\n            p = tag_and_clear_slab_slot(metadata, p, slot, size);\n        }\n#endif\n    }\n    return p;\n}\n\nstatic inline void *allocate_small(unsigned arena, size_t requested_size) {"),
    (H, "            void *slab = get_slab(c, slab_size, metadata);\n            size_t slot = get_free_slot(&c->rng, slots, metadata);\n            set_used_slot(metadata, slot);\n            void *p = slot_pointer(size, slab, slot);\n            if (requested_size) {\n                write_after_free_check(p, size - canary_size);\n                set_canary(metadata, p, size);\n#ifdef HAS_ARM_MTE\n                if (likely(is_memtag_enabled())) {\n                    p = tag_and_clear_slab_slot(metadata, p, slot, size);\n                }\n#endif\n            }\n            stats_small_allocate(c, size);\n", "            void *p = take_slot(c, metadata, size, slots, slab_size, requested_size == 0, true);\n            stats_small_allocate(c, size);\n"),
    (H, "            size_t slot = get_free_slot(&c->rng, slots, metadata);\n            set_used_slot(metadata, slot);\n            void *p = slot_pointer(size, slab, slot);\n            if (requested_size) {\n                set_canary(metadata, p, size);\n#ifdef HAS_ARM_MTE\n                if (likely(is_memtag_enabled())) {\n                    p = tag_and_clear_slab_slot(metadata, p, slot, size);\n                }\n#endif\n            }\n            stats_slab_allocate(c, slab_size);\n            stats_small_allocate(c, size);\n", "            stats_slab_allocate(c, slab_size);\n            stats_small_allocate(c, size);\n            void *p = take_slot(c, metadata, size, slots, slab_size, requested_size == 0, false);\n"),
    (H, "        void *slab = get_slab(c, slab_size, metadata);\n        size_t slot = get_free_slot(&c->rng, slots, metadata);\n        set_used_slot(metadata, slot);\n        void *p = slot_pointer(size, slab, slot);\n        if (requested_size) {\n            set_canary(metadata, p, size);\n#ifdef HAS_ARM_MTE\n            if (likely(is_memtag_enabled())) {\n                p = tag_and_clear_slab_slot(metadata, p, slot, size);\n            }\n#endif\n        }\n        stats_slab_allocate(c, slab_size);\n        stats_small_allocate(c, size);\n", "        void *p = take_slot(c, metadata, size, slots, slab_size, requested_size == 0, false);\n        stats_small_allocate(c, size);\n        stats_slab_allocate(c, slab_size);\n"),
    (H, "        size_t allocate = max(c->metadata_allocated * 2, PAGE_SIZE / sizeof(struct slab_metadata));\n        if (allocate > metadata_max) {\n            allocate = metadata_max;\n        }\n", "        const size_t first = PAGE_SIZE / sizeof(struct slab_metadata);\n        size_t allocate = min(max(c->metadata_allocated * 2, first), metadata_max);\n"),
    (H, "    struct slab_metadata *metadata = c->slab_info + c->metadata_count;\n    void *slab = get_slab(c, slab_size, metadata);\n    if (non_zero_size && memory_protect_rw(slab, slab_size)) {\n        return NULL;\n    }", "    struct slab_metadata *metadata = &c->slab_info[c->metadata_count];\n    if (non_zero_size) {\n        void *slab = get_slab(c, slab_size, metadata);\n        if (unlikely(memory_protect_rw(slab, slab_size))) {\n            return NULL;\n        }\n    }"),
    (H, "    size_t size = likely(info.size) ? info.size : 16;\n\n    struct size_class *c = &ro.size_class_metadata[arena][info.class];\n    size_t slots = get_slots(info.class);", "    struct size_class *c = ro.size_class_metadata[arena] + info.class;\n    size_t slots = get_slots(info.class);\n    size_t size = info.size;\n    if (unlikely(size == 0)) {\n        size = 16;\n    }"))
eqv("combo_dealloc",
    (H, "// preserves errno\nstatic inline void deallocate_small(void *p, const size_t *expected_size) {", "static size_t get_slot(const struct size_class *c, const void *slab, const void *p) {\n    return libdivide_u32_do((const char *)p - (const char *)slab, &c->size_divisor);\n}\n\n#if SLAB_QUARANTINE\n// returns the slot dropping out of the quarantine or NULL\nstatic void *quarantine_slot(struct size_class *c, void *p, size_t size) {\n    const size_t quarantine_shift = clz64(size) - (63 - MAX_SLAB_SIZE_CLASS_SHIFT);\n#if SLAB_QUARANTINE_RANDOM_LENGTH > 0\n    size_t length = (size_t)SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;\n    size_t random_index = length > UINT16_MAX ? get_random_u64_uniform(&c->rng, length) : get_random_u16_uniform(&c->rng, length);\n    void **entry = &c->quarantine_random[random_index];\n    void *out = *entry;\n    *entry = p;\n    if (out == NULL) {\n        return NULL;\n    }\n    p = out;\n#endif\n#if SLAB_QUARANTINE_QUEUE_LENGTH > 0\n    size_t queue_length = (size_t)SLAB_QUARANTINE_QUEUE_LENGTH << quarantine_shift;\n    size_t i = c->quarantine_queue_index;\n    void *last = c->quarantine_queue[i];\n    c->quarantine_queue[i] = p;\n    i++;\n    c->quarantine_queue_index = i == queue_length ? 0 : i;\n    p = last;\n#endif\n    return p;\n}\n#endif\n\n// preserves errno\nstatic inline void deallocate_small(void *p, const size_t *expected_size) {"),
    (H, "    size_t slot = libdivide_u32_do((char *)p - (char *)slab, &c->size_divisor);\n\n    if (unlikely(slot_pointer(size, slab, slot) != p)) {\n        fatal_error(\"invalid unaligned free\");", "    size_t slot = get_slot(c, slab, p);\n\n    if (unlikely((char *)slab + slot * size != p)) {\n        fatal_error(\"invalid unaligned free\");"),
    (H, "    size_t quarantine_shift = clz64(size) - (63 - MAX_SLAB_SIZE_CLASS_SHIFT);\n\n#if SLAB_QUARANTINE_RANDOM_LENGTH > 0\n    size_t slab_quarantine_random_length = SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;\n\n    // the scaled length can exceed the range of the 16-bit generator for small size classes\n    size_t random_index = slab_quarantine_random_length <= UINT16_MAX ?\n        get_random_u16_uniform(&c->rng, slab_quarantine_random_length) :\n        get_random_u64_uniform(&c->rng, slab_quarantine_random_length);\n    void *random_substitute = c->quarantine_random[random_index];\n    c->quarantine_random[random_index] = p;\n\n    if (random_substitute == NULL) {\n        mutex_unlock(&c->lock);\n        return;\n    }\n\n    p = random_substitute;\n#endif\n\n#if SLAB_QUARANTINE_QUEUE_LENGTH > 0\n    size_t slab_quarantine_queue_length = SLAB_QUARANTINE_QUEUE_LENGTH << quarantine_shift;\n\n    void *queue_substitute = c->quarantine_queue[c->quarantine_queue_index];\n    c->quarantine_queue[c->quarantine_queue_index] = p;\n    c->quarantine_queue_index = (c->quarantine_queue_index + 1) % slab_quarantine_queue_length;\n\n    if (queue_substitute == NULL) {\n        mutex_unlock(&c->lock);\n        return;\n    }\n\n    p = queue_substitute;\n#endif\n\n    metadata = get_metadata(c, p);\n    slab = get_slab(c, slab_size, metadata);\n    slot = libdivide_u32_do((char *)p - (char *)slab, &c->size_divisor);\n", "    p = quarantine_slot(c, p, size);\n    if (p == NULL) {\n        mutex_unlock(&c->lock);\n        return;\n    }\n\n    metadata = get_metadata(c, p);\n    slab = get_slab(c, slab_size, metadata);\n    slot = get_slot(c, slab, p);\n"),
    (H, "    mutex_lock(&c->lock);\n\n    stats_small_deallocate(c, size);\n\n    struct slab_metadata *metadata = get_metadata(c, p);\n    void *slab = get_slab(c, slab_size, metadata);\n", "    mutex_lock(&c->lock);\n\n    struct slab_metadata *metadata = get_metadata(c, p);\n    void *slab = get_slab(c, slab_size, metadata);\n"),
    (H, "        fatal_error(\"double free\");\n    }\n", "        fatal_error(\"double free\");\n    }\n\n    stats_small_deallocate(c, size);\n"),
    (H, "    size_t size = size_classes[class];\n    if (expected_size && unlikely(size != *expected_size)) {\n        fatal_error(\"sized deallocation mismatch (small)\");\n    }\n    bool is_zero_size = size == 0;", "    size_t size = size_classes[class];\n    bool is_zero_size = size == 0;\n    if (expected_size != NULL) {\n        if (unlikely(*expected_size != size)) {\n            fatal_error(\"sized deallocation mismatch (small)\");\n        }\n    }"),
    (H, "            int saved_errno = errno;\n            if (!map_unused_slab(slab, slab_size)) {\n                label_slab(slab, slab_size, class);\n                // labelling is allowed to fail\n                errno = saved_errno;\n                stats_slab_deallocate(c, slab_size);\n                enqueue_free_slab(c, metadata);\n                mutex_unlock(&c->lock);\n                return;\n            }\n            memory_purge(slab, slab_size);\n            errno = saved_errno;\n", "            const int saved_errno = errno;\n            bool failed = map_unused_slab(slab, slab_size);\n            if (failed) {\n                memory_purge(slab, slab_size);\n            } else {\n                label_slab(slab, slab_size, class);\n            }\n            errno = saved_errno;\n            if (!failed) {\n                enqueue_free_slab(c, metadata);\n                stats_slab_deallocate(c, slab_size);\n                mutex_unlock(&c->lock);\n                return;\n            }\n"))
eqv("combo_large",
    (H, "static void *allocate_large(size_t size) {\n    size = get_large_size_class(size);\n    if (unlikely(!size)) {\n        errno = ENOMEM;\n        return NULL;\n    }\n\n    struct region_allocator *ra = ro.region_allocator;\n\n    mutex_lock(&ra->lock);\n    size_t guard_size = get_guard_size(&ra->rng, size);\n    mutex_unlock(&ra->lock);\n\n    void *p = allocate_pages(size, guard_size, true, \"malloc large\");\n    if (p == NULL) {\n        return NULL;\n    }\n\n    mutex_lock(&ra->lock);\n    if (unlikely(regions_insert(p, size, guard_size))) {\n        mutex_unlock(&ra->lock);\n        deallocate_pages(p, size, guard_size);\n        errno = ENOMEM;\n        return NULL;\n    }\n    stats_large_allocate(ra, size);\n    mutex_unlock(&ra->lock);\n\n    return p;\n}",
        "static size_t draw_guard_size(size_t size) {\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    size_t guard_size = get_guard_size(&ra->rng, size);\n    mutex_unlock(&ra->lock);\n    return guard_size;\n}\n\nstatic bool register_region(void *p, size_t size, size_t guard_size) {\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    const bool ok = !regions_insert(p, size, guard_size);\n    if (likely(ok)) {\n        stats_large_allocate(ra, size);\n    }\n    mutex_unlock(&ra->lock);\n    if (unlikely(!ok)) {\n        deallocate_pages(p, size, guard_size);\n    }\n    return ok;\n}\n\nstatic void *allocate_large(size_t size) {\n    size = get_large_size_class(size);\n    if (likely(size)) {\n        size_t guard_size = draw_guard_size(size);\n        void *p = allocate_pages(size, guard_size, true, \"malloc large\");\n        if (p == NULL) {\n            return NULL;\n        }\n        if (likely(register_region(p, size, guard_size))) {\n            return p;\n        }\n    }\n    errno = ENOMEM;\n    return NULL;\n}"),
    (H, "    struct region_allocator *ra = ro.region_allocator;\n\n    mutex_lock(&ra->lock);\n    size_t guard_size = get_guard_size(&ra->rng, size);\n    mutex_unlock(&ra->lock);\n\n    void *p = allocate_pages_aligned(size, alignment, guard_size, \"malloc large\");\n    if (unlikely(p == NULL)) {\n        return ENOMEM;\n    }\n\n    mutex_lock(&ra->lock);\n    if (unlikely(regions_insert(p, size, guard_size))) {\n        mutex_unlock(&ra->lock);\n        deallocate_pages(p, size, guard_size);\n        return ENOMEM;\n    }\n    stats_large_allocate(ra, size);\n    mutex_unlock(&ra->lock);\n\n    *memptr = p;\n    return 0;", "    size_t guard_size = draw_guard_size(size);\n    void *p = allocate_pages_aligned(size, alignment, guard_size, \"malloc large\");\n    if (unlikely(p == NULL) || unlikely(!register_region(p, size, guard_size))) {\n        return ENOMEM;\n    }\n    *memptr = p;\n    return 0;"),
    (H, "    size_t guard_size = region->guard_size;\n    regions_delete(region);\n    stats_large_deallocate(ra, size);\n    mutex_unlock(&ra->lock);\n\n    regions_quarantine_deallocate_pages(p, size, guard_size);", "    size_t guard_size = region->guard_size;\n    stats_large_deallocate(ra, size);\n    regions_delete(region);\n    mutex_unlock(&ra->lock);\n\n    regions_quarantine_deallocate_pages(p, size, guard_size);"),
    (H, "    struct quarantine_info random_substitute = ra->quarantine_random[index];\n    ra->quarantine_random[index] = target;\n    if (random_substitute.p == NULL) {\n        mutex_unlock(&ra->lock);\n        return;\n    }\n    target = random_substitute;", "    struct quarantine_info *entry = &ra->quarantine_random[index];\n    struct quarantine_info random_substitute = *entry;\n    *entry = target;\n    target = random_substitute;\n    if (target.p == NULL) {\n        mutex_unlock(&ra->lock);\n        return;\n    }"),
    (H, "    struct quarantine_info queue_substitute = ra->quarantine_queue[ra->quarantine_queue_index];\n    ra->quarantine_queue[ra->quarantine_queue_index] = target;\n    ra->quarantine_queue_index = (ra->quarantine_queue_index + 1) % REGION_QUARANTINE_QUEUE_LENGTH;\n    target = queue_substitute;", "    const size_t position = ra->quarantine_queue_index;\n    struct quarantine_info queue_substitute = ra->quarantine_queue[position];\n    ra->quarantine_queue[position].p = target.p;\n    ra->quarantine_queue[position].size = target.size;\n    ra->quarantine_queue_index = position == REGION_QUARANTINE_QUEUE_LENGTH - 1 ? 0 : position + 1;\n    target = queue_substitute;"),
    (H, "    mutex_unlock(&ra->lock);\n\n    if (target.p != NULL) {\n        memory_unmap(target.p, target.size);\n    }\n}", "    mutex_unlock(&ra->lock);\n\n    if (target.p == NULL) {\n        return;\n    }\n    memory_unmap(target.p, target.size);\n}"),
    ("pages.c", "    void *usable = (char *)real + guard_size;\n    if (unprotect && unlikely(memory_protect_rw(usable, usable_size))) {\n        memory_unmap(real, real_size);\n        return NULL;\n    }\n    return usable;", "    void *usable = (char *)real + guard_size;\n    if (!unprotect || likely(!memory_protect_rw(usable, usable_size))) {\n        return usable;\n    }\n    memory_unmap(real, real_size);\n    return NULL;"),
    ("pages.c", "    return __builtin_add_overflow(size, guard_size, total_size) ||\n        __builtin_add_overflow(*total_size, guard_size, total_size);", "    size_t guards;\n    if (__builtin_mul_overflow(guard_size, (size_t)2, &guards)) {\n        return true;\n    }\n    return __builtin_add_overflow(size, guards, total_size);"),
    ("pages.c", "    size_t lead_size = align((uintptr_t)usable, alignment) - (uintptr_t)usable;\n    size_t trail_size = alloc_size - lead_size - usable_size;\n    void *base = (char *)usable + lead_size;\n", "    uintptr_t start = (uintptr_t)usable;\n    uintptr_t aligned = (start + alignment - 1) & ~(uintptr_t)(alignment - 1);\n    size_t lead_size = aligned - start;\n    void *base = (char *)usable + lead_size;\n    size_t trail_size = alloc_size - (lead_size + usable_size);\n"),
    ("pages.c", "    if (lead_size) {\n        if (unlikely(memory_unmap(real, lead_size))) {\n            memory_unmap(real, real_alloc_size);\n            return NULL;\n        }\n    }\n", "    if (unlikely(lead_size && memory_unmap(real, lead_size))) {\n        memory_unmap(real, real_alloc_size);\n        return NULL;\n    }\n"),
    ("pages.c", "    if (unlikely(memory_unmap((char *)usable - guard_size, usable_size + guard_size * 2))) {\n        memory_purge(usable, usable_size);\n    }", "    char *start = (char *)usable - guard_size;\n    size_t total = guard_size + usable_size + guard_size;\n    bool failed = memory_unmap(start, total);\n    if (unlikely(failed)) {\n        memory_purge(usable, usable_size);\n    }"))
eqv("combo_memory",
    ("memory.c", "    bool ret = p == MAP_FAILED;\n    if (unlikely(ret) && errno != ENOMEM) {\n        fatal_error(\"non-ENOMEM MAP_FIXED mmap failure\");\n    }\n    return ret;", "    if (likely(p != MAP_FAILED)) {\n        return false;\n    }\n    if (errno != ENOMEM) {\n        fatal_error(\"non-ENOMEM MAP_FIXED mmap failure\");\n    }\n    return true;"),
    ("memory.c", "    bool ret = munmap(ptr, size);\n    if (unlikely(ret) && errno != ENOMEM) {\n        fatal_error(\"non-ENOMEM munmap failure\");\n    }\n    return ret;", "    int ret = munmap(ptr, size);\n    if (unlikely(ret == -1)) {\n        if (errno != ENOMEM) {\n            fatal_error(\"non-ENOMEM munmap failure\");\n        }\n    }\n    return ret != 0;"),
    ("memory.c", "    void *p = mmap(NULL, size, PROT_NONE, MAP_ANONYMOUS|MAP_PRIVATE, -1, 0);\n    if (unlikely(p == MAP_FAILED)) {\n        if (errno != ENOMEM) {\n            fatal_error(\"non-ENOMEM mmap failure\");\n        }\n        return NULL;\n    }\n    return p;", "    void *p = mmap(NULL, size, PROT_NONE, MAP_ANONYMOUS|MAP_PRIVATE, -1, 0);\n    if (likely(p != MAP_FAILED)) {\n        return p;\n    }\n    if (unlikely(errno != ENOMEM)) {\n        fatal_error(\"non-ENOMEM mmap failure\");\n    }\n    return NULL;"),
    ("memory.c", "    bool ret = mprotect(ptr, size, prot);\n#endif\n    if (unlikely(ret) && errno != ENOMEM) {\n        fatal_error(\"non-ENOMEM mprotect failure\");\n    }\n    return ret;", "    int ret = mprotect(ptr, size, prot);\n#endif\n    if (likely(!ret)) {\n        return false;\n    }\n    if (errno != ENOMEM) {\n        fatal_error(\"non-ENOMEM mprotect failure\");\n    }\n    return true;"),
    ("memory.c", "    bool ret = pkey_mprotect(ptr, size, prot, pkey);", "    int ret = pkey_mprotect(ptr, size, prot, pkey);"),
    ("memory.c", "    void *ptr = mremap(old, old_size, new_size, MREMAP_MAYMOVE|MREMAP_FIXED, new);\n    bool ret = ptr == MAP_FAILED;\n    if (unlikely(ret) && errno != ENOMEM) {\n        fatal_error(\"non-ENOMEM MREMAP_FIXED mremap failure\");\n    }\n    return ret;", "    const int flags = MREMAP_FIXED | MREMAP_MAYMOVE;\n    if (unlikely(mremap(old, old_size, new_size, flags, new) == MAP_FAILED)) {\n        if (errno == ENOMEM) {\n            return true;\n        }\n        fatal_error(\"non-ENOMEM MREMAP_FIXED mremap failure\");\n    }\n    return false;"),
    ("util.c", "    do {\n        ssize_t bytes_written = write(fd, buf, length);\n        if (bytes_written == -1) {\n            if (errno == EINTR) {\n                continue;\n            }\n            return -1;\n        }\n        buf += bytes_written;\n        length -= bytes_written;\n    } while (length);\n\n    return 0;", "    while (length > 0) {\n        ssize_t bytes_written = write(fd, buf, length);\n        if (bytes_written >= 0) {\n            buf += bytes_written;\n            length -= bytes_written;\n        } else if (errno != EINTR) {\n            return -1;\n        }\n    }\n\n    return 0;"),
    ("util.c", "    (void)(write_full(STDERR_FILENO, prefix, strlen(prefix)) != -1 &&\n        write_full(STDERR_FILENO, s, strlen(s)) != -1 &&\n        write_full(STDERR_FILENO, \"\\n\", 1));\n    abort();", "    if (write_full(STDERR_FILENO, prefix, strlen(prefix)) == 0) {\n        if (write_full(STDERR_FILENO, s, strlen(s)) == 0) {\n            (void)write_full(STDERR_FILENO, \"\\n\", 1);\n        }\n    }\n    abort();"),
    ("new.cc", "    do {\n        std::new_handler handler = std::get_new_handler();\n        if (handler == nullptr) {\n            break;\n        }\n\n        try {\n            handler();\n        } catch (const std::bad_alloc &) {\n            break;\n        }\n\n        ptr = h_malloc(size);\n    } while (ptr == nullptr);\n", "    while (ptr == nullptr) {\n        std::new_handler handler = std::get_new_handler();\n        if (!handler) {\n            break;\n        }\n\n        try {\n            handler();\n            ptr = h_malloc(size);\n        } catch (const std::bad_alloc &) {\n            break;\n        }\n    }\n"),
    ("new.cc", "    void *ptr = h_aligned_alloc(alignment, size);\n    if (likely(ptr != nullptr)) {\n        return ptr;\n    }\n    return handle_out_of_memory(size, alignment, nothrow);", "    void *ptr = h_aligned_alloc(alignment, size);\n    return likely(ptr != nullptr) ? ptr : handle_out_of_memory(size, alignment, nothrow);"),
    ("new.cc", "    if (ptr == nullptr && !nothrow) {\n        std::__throw_bad_alloc();\n    }\n    return ptr;", "    if (nothrow || ptr != nullptr) {\n        return ptr;\n    }\n    std::__throw_bad_alloc();"),
    ("random.c", "    u8 rnd[CHACHA_KEY_SIZE + CHACHA_IV_SIZE];\n    get_random_seed(rnd, sizeof(rnd));\n    chacha_keysetup(&state->ctx, rnd);\n    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);\n    state->index = RANDOM_CACHE_SIZE;\n    state->reseed = 0;\n}\n\nvoid random_state_init_from_random_state(struct random_state *state, struct random_state *source) {\n    u8 rnd[CHACHA_KEY_SIZE + CHACHA_IV_SIZE];\n    get_random_bytes(source, rnd, sizeof(rnd));\n    chacha_keysetup(&state->ctx, rnd);\n    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);\n    state->index = RANDOM_CACHE_SIZE;\n    state->reseed = 0;\n}", "    u8 rnd[CHACHA_KEY_SIZE + CHACHA_IV_SIZE];\n    get_random_seed(rnd, sizeof(rnd));\n    random_state_setup(state, rnd);\n}\n\nvoid random_state_init_from_random_state(struct random_state *state, struct random_state *source) {\n    u8 rnd[CHACHA_KEY_SIZE + CHACHA_IV_SIZE];\n    get_random_bytes(source, rnd, sizeof(rnd));\n    random_state_setup(state, rnd);\n}"),
    ("random.c", "void random_state_init(struct random_state *state) {", "static void random_state_setup(struct random_state *state, const u8 *seed) {\n    state->reseed = 0;\n    state->index = RANDOM_CACHE_SIZE;\n    chacha_keysetup(&state->ctx, seed);\n    chacha_ivsetup(&state->ctx, seed + CHACHA_KEY_SIZE);\n}\n\nvoid random_state_init(struct random_state *state) {"),
    ("random.c", "    memcpy(&value, state->cache + state->index, sizeof(value));\n    state->index += sizeof(value);\n    return value;\n}\n\n// See Fast Random Integer Generation in an Interval by Daniel Lemire\nu64", "    const u8 *next = &state->cache[state->index];\n    state->index += sizeof(value);\n    memcpy(&value, next, sizeof(value));\n    return value;\n}\n\n// See Fast Random Integer Generation in an Interval by Daniel Lemire\nu64"))
eqv("combo_api",
    (H, "    size = adjust_size_for_canary(size);\n    return alloc(size);\n}\n\nEXPORT void *h_calloc", "    return alloc(adjust_size_for_canary(size));\n}\n\nEXPORT void *h_calloc"),
    (H, "    if (!ZERO_ON_FREE && likely(p != NULL) && total_size && total_size <= max_slab_size_class) {\n        memset(p, 0, total_size - canary_size);\n    }", "    if (unlikely(p == NULL)) {\n        return NULL;\n    }\n    if (!ZERO_ON_FREE) {\n        const bool small = total_size > 0 && total_size <= max_slab_size_class;\n        if (small) {\n            memset(p, 0, total_size - canary_size);\n        }\n    }"),
    (H, "    if (unlikely(__builtin_mul_overflow(nmemb, size, &total_size))) {\n        errno = ENOMEM;\n        return NULL;\n    }\n", "    if (unlikely(size != 0 && nmemb > SIZE_MAX / size)) {\n        errno = ENOMEM;\n        return NULL;\n    }\n    total_size = nmemb * size;\n"),
    (H, "    const void *p = untag_const_pointer(arg);\n\n    if (p < get_slab_region_end() && p >= ro.slab_region_start) {\n        thread_unseal_metadata();\n        memory_corruption_check_small(p);\n        thread_seal_metadata();\n\n        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 0;\n    }\n", "    const void *p = untag_const_pointer(arg);\n    const bool is_slab = p >= ro.slab_region_start && p < get_slab_region_end();\n\n    if (is_slab) {\n        const size_t size = slab_usable_size(p);\n        thread_unseal_metadata();\n        memory_corruption_check_small(p);\n        thread_seal_metadata();\n        if (size == 0) {\n            return 0;\n        }\n        return size - canary_size;\n    }\n"),
    (H, "    if (unlikely(!is_used_slot(metadata, slot))) {\n        fatal_error(\"invalid malloc_usable_size\");\n    }\n\n    if (likely(!is_zero_size)) {\n        check_canary(metadata, p, size);\n    }\n\n#if SLAB_QUARANTINE\n    if (unlikely(is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"invalid malloc_usable_size (quarantine)\");\n    }\n#endif\n", "    if (unlikely(!is_used_slot(metadata, slot))) {\n        fatal_error(\"invalid malloc_usable_size\");\n    }\n\n#if SLAB_QUARANTINE\n    if (unlikely(is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"invalid malloc_usable_size (quarantine)\");\n    }\n#endif\n\n    if (!is_zero_size) {\n        check_canary(metadata, p, size);\n    }\n"),
    (H, "        void *start = slot_pointer(size_class, slab, slot);\n        size_t offset = (const char *)p - (const char *)start;\n\n        mutex_unlock(&c->lock);\n        thread_seal_metadata();\n\n        size_t size = slab_usable_size(p);\n        return size ? size - canary_size - offset : 0;", "        size_t offset = (size_t)((const char *)p - (const char *)slab) - slot * size_class;\n\n        mutex_unlock(&c->lock);\n        thread_seal_metadata();\n\n        if (size_classes[class] == 0) {\n            return 0;\n        }\n        return size_class - canary_size - offset;"),
    (H, "        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 0;\n    }\n\n    if (unlikely(slab_region_end == NULL)) {\n        return 0;\n    }\n\n    return SIZE_MAX;", "        size_t size = slab_usable_size(p);\n        if (unlikely(!size)) {\n            return 0;\n        }\n        return size - canary_size;\n    }\n\n    return slab_region_end == NULL ? 0 : SIZE_MAX;"),
    (H, "    if (p < get_slab_region_end() && p >= ro.slab_region_start) {\n        thread_unseal_metadata();\n        deallocate_small(p, NULL);\n        thread_seal_metadata();\n        return;\n    }\n\n    int saved_errno = errno;\n    deallocate_large(p, NULL);\n    errno = saved_errno;\n\n    thread_seal_metadata();", "    if (p >= get_slab_region_end() || p < ro.slab_region_start) {\n        int saved_errno = errno;\n        deallocate_large(p, NULL);\n        thread_seal_metadata();\n        errno = saved_errno;\n        return;\n    }\n\n    thread_unseal_metadata();\n    deallocate_small(p, NULL);\n    thread_seal_metadata();"),
    (H, "        thread_unseal_metadata();\n        // must match the size class selection of allocate_aligned\n        expected_size = alignment > min_align && alignment <= PAGE_SIZE ?\n            get_size_info_align(expected_size, alignment).size : get_size_info(expected_size).size;\n        deallocate_small(p, &expected_size);", "        // must match the size class selection of allocate_aligned\n        struct size_info info;\n        if (alignment <= min_align || alignment > PAGE_SIZE) {\n            info = get_size_info(expected_size);\n        } else {\n            info = get_size_info_align(expected_size, alignment);\n        }\n        thread_unseal_metadata();\n        deallocate_small(p, &info.size);"),
    (H, "    if ((alignment - 1) & alignment || alignment < min_alignment) {\n        return EINVAL;\n    }\n\n    if (alignment <= PAGE_SIZE) {\n        if (size <= max_slab_size_class && alignment > min_align) {\n            size = get_size_info_align(size, alignment).size;\n        }\n", "    const bool power_of_two = (alignment & (alignment - 1)) == 0;\n    if (alignment < min_alignment || !power_of_two) {\n        return EINVAL;\n    }\n\n    if (alignment <= PAGE_SIZE) {\n        if (alignment > min_align && size <= max_slab_size_class) {\n            struct size_info info = get_size_info_align(size, alignment);\n            size = info.size;\n        }\n"),
    (H, "    if (size > 0 && size <= max_slab_size_class) {\n        return size + canary_size;\n    }\n    return size;", "    if (size == 0 || size > max_slab_size_class) {\n        return size;\n    }\n    return size + canary_size;"),
    (H, "    for (unsigned class = 1; class < N_SIZE_CLASSES; class++) {\n        size_t real_size = size_classes[class];\n        if (size <= real_size && !(real_size & (alignment - 1))) {\n            return (struct size_info){real_size, class};\n        }\n    }\n    fatal_error(\"invalid size for slabs\");", "    unsigned class = 1;\n    while (class < N_SIZE_CLASSES && (size_classes[class] < size || size_classes[class] % alignment != 0)) {\n        class++;\n    }\n    if (unlikely(class == N_SIZE_CLASSES)) {\n        fatal_error(\"invalid size for slabs\");\n    }\n    return (struct size_info){size_classes[class], class};"),
    (H, "    size_t spacing_class_shift = log2u64(size - 1) - 2;\n    size_t spacing_class = 1ULL << spacing_class_shift;\n    size_t real_size = align(size, spacing_class);\n    size_t spacing_class_index = (real_size >> spacing_class_shift) - initial_spacing_multiplier;", "    size_t spacing_class_shift = 61 - (size_t)__builtin_clzl(size - 1);\n    size_t spacing_mask = ((size_t)1 << spacing_class_shift) - 1;\n    size_t real_size = (size + spacing_mask) & ~spacing_mask;\n    size_t spacing_class_index = (real_size >> spacing_class_shift) - initial_spacing_multiplier;"))
eqv("combo_realloc",
    (H, "EXPORT void *h_realloc(void *old, size_t size) {", "// old and new are page aligned, the usable size of the old allocation is larger\nstatic void *shrink_large(void *old, size_t old_size, size_t size, size_t guard_size) {\n    char *guard = (char *)old + size;\n    if (memory_map_fixed(guard, guard_size)) {\n        return NULL;\n    }\n    memory_set_name(guard, guard_size, \"malloc large\");\n    regions_quarantine_deallocate_pages(guard + guard_size, old_size - size, 0);\n\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    struct region_metadata *region = regions_find(old);\n    if (unlikely(region == NULL)) {\n        fatal_error(\"invalid realloc\");\n    }\n    stats_large_deallocate(ra, region->size - size);\n    region->size = size;\n    mutex_unlock(&ra->lock);\n    return old;\n}\n\nEXPORT void *h_realloc(void *old, size_t size) {"),
    (H, "                void *new_end = (char *)old + size;\n                if (memory_map_fixed(new_end, old_guard_size)) {\n                    thread_seal_metadata();\n                    return NULL;\n                }\n                memory_set_name(new_end, old_guard_size, \"malloc large\");\n                void *new_guard_end = (char *)new_end + old_guard_size;\n                regions_quarantine_deallocate_pages(new_guard_end, old_size - size, 0);\n\n                mutex_lock(&ra->lock);\n                struct region_metadata *region = regions_find(old);\n                if (unlikely(region == NULL)) {\n                    fatal_error(\"invalid realloc\");\n                }\n                region->size = size;\n                stats_large_deallocate(ra, old_size - size);\n                mutex_unlock(&ra->lock);\n\n                thread_seal_metadata();\n                return old;", "                void *shrunk = shrink_large(old, old_size, size, old_guard_size);\n                thread_seal_metadata();\n                return shrunk;"),
    (H, "    size_t new_usable = size > 0 && size <= max_slab_size_class ? size - canary_size : size;\n    size_t old_usable = old_is_slab && old_size > 0 ? old_size - canary_size : old_size;\n    size_t copy_size = min(new_usable, old_usable);\n    memcpy(new, old_orig, copy_size);\n    if (old_is_slab) {\n        deallocate_small(old, NULL);\n    } else {\n        deallocate_large(old, NULL);\n    }\n    thread_seal_metadata();\n    return new;", "    size_t copy_size = size;\n    if (size != 0 && size <= max_slab_size_class) {\n        copy_size -= canary_size;\n    }\n    if (old_is_slab) {\n        copy_size = min(copy_size, old_size ? old_size - canary_size : 0);\n        memcpy(new, old_orig, copy_size);\n        deallocate_small(old, NULL);\n    } else {\n        memcpy(new, old_orig, min(copy_size, old_size));\n        deallocate_large(old, NULL);\n    }\n    thread_seal_metadata();\n    return new;"),
    (H, "        if (old_size == size) {\n            mutex_unlock(&ra->lock);\n            thread_seal_metadata();\n            return old;\n        }\n        mutex_unlock(&ra->lock);\n", "        mutex_unlock(&ra->lock);\n        if (old_size == size) {\n            thread_seal_metadata();\n            return old;\n        }\n"),
    (H, "                if (memory_remap_fixed(old, old_size, new, size)) {\n                    memcpy(new, old, copy_size);\n                    deallocate_pages(old, old_size, old_guard_size);\n                } else {\n                    memory_unmap((char *)old - old_guard_size, old_guard_size);\n                    memory_unmap((char *)old + page_align(old_size), old_guard_size);\n                }", "                const bool moved = !memory_remap_fixed(old, old_size, new, size);\n                if (moved) {\n                    memory_unmap((char *)old + page_align(old_size), old_guard_size);\n                    memory_unmap((char *)old - old_guard_size, old_guard_size);\n                } else {\n                    memcpy(new, old, copy_size);\n                    deallocate_pages(old, old_size, old_guard_size);\n                }"),
    (H, "        old_size = slab_usable_size(old);\n        if (size <= max_slab_size_class && get_size_info(size).size == old_size) {\n            return old_orig;\n        }", "        old_size = slab_usable_size(old);\n        const bool new_is_small = size <= max_slab_size_class;\n        if (new_is_small) {\n            size_t new_class_size = get_size_info(size).size;\n            if (new_class_size == old_size) {\n                return old_orig;\n            }\n        }"),
    (H, "    if (size > max_slab_size_class) {\n        size = get_large_size_class(size);\n        if (unlikely(!size)) {\n            errno = ENOMEM;\n            return NULL;\n        }\n    }\n\n    void *old_orig = old;", "    if (size > max_slab_size_class && unlikely((size = get_large_size_class(size)) == 0)) {\n        errno = ENOMEM;\n        return NULL;\n    }\n\n    void *old_orig = old;"))
eqv("combo_init",
    (H, "    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {\n            mutex_lock(&ro.size_class_metadata[arena][class].lock);\n        }\n    }", "    unsigned arena = 0;\n    while (arena < N_ARENA) {\n        struct size_class *c = ro.size_class_metadata[arena++];\n        for (size_t class = 0; class != N_SIZE_CLASSES; ++class) {\n            mutex_lock(&c[class].lock);\n        }\n    }"),
    (H, "    mutex_unlock(&ro.region_allocator->lock);\n    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {\n            mutex_unlock(&ro.size_class_metadata[arena][class].lock);\n        }\n    }", "    for (unsigned arena = N_ARENA; arena > 0; arena--) {\n        for (unsigned class = N_SIZE_CLASSES; class > 0; class--) {\n            mutex_unlock(&ro.size_class_metadata[arena - 1][class - 1].lock);\n        }\n    }\n    mutex_unlock(&ro.region_allocator->lock);"),
    (H, "            random_state_init_from_random_state(&c->rng, rng);\n\n            size_t bound = (REAL_CLASS_REGION_SIZE - CLASS_REGION_SIZE) / PAGE_SIZE - 1;\n            size_t gap = (get_random_u64_uniform(rng, bound) + 1) * PAGE_SIZE;\n            c->class_region_start = (char *)ro.slab_region_start + ARENA_SIZE * arena + REAL_CLASS_REGION_SIZE * class + gap;\n            label_slab(c->class_region_start, CLASS_REGION_SIZE, class);\n", "            random_state_init_from_random_state(&c->rng, rng);\n\n            const size_t pages = (REAL_CLASS_REGION_SIZE - CLASS_REGION_SIZE) / PAGE_SIZE;\n            const size_t gap_pages = 1 + get_random_u64_uniform(rng, pages - 1);\n            char *class_region = (char *)ro.slab_region_start + ARENA_SIZE * arena + REAL_CLASS_REGION_SIZE * class;\n            c->class_region_start = class_region + gap_pages * PAGE_SIZE;\n            label_slab(c->class_region_start, CLASS_REGION_SIZE, class);\n"),
    (H, "    ro.regions[0] = allocator_state->regions_a;\n    ro.regions[1] = allocator_state->regions_b;\n    ra->regions = ro.regions[0];\n    ra->total = INITIAL_REGION_TABLE_SIZE;\n    ra->free = INITIAL_REGION_TABLE_SIZE;", "    ra->regions = allocator_state->regions_a;\n    ra->free = INITIAL_REGION_TABLE_SIZE;\n    ra->total = INITIAL_REGION_TABLE_SIZE;\n    ro.regions[1] = allocator_state->regions_b;\n    ro.regions[0] = ra->regions;"),
    (H, "    if (likely(arena < N_ARENA)) {\n        return arena;\n    }\n    thread_arena = arena = thread_arena_counter++ % N_ARENA;\n#endif\n    if (unlikely(!is_init())) {\n        init_slow_path();\n    }\n    return arena;", "    if (likely(arena < N_ARENA)) {\n        return arena;\n    }\n    arena = atomic_fetch_add(&thread_arena_counter, 1) % N_ARENA;\n    thread_arena = arena;\n#endif\n    if (likely(is_init())) {\n        return arena;\n    }\n    init_slow_path();\n    return arena;"),
    (H, "    void *slab_region_end = (char *)ro.slab_region_start + slab_region_size;\n    memory_set_name(ro.slab_region_start, slab_region_size, \"malloc slab region gap\");", "    memory_set_name(ro.slab_region_start, slab_region_size, \"malloc slab region gap\");\n    char *slab_region_end = ro.slab_region_start;\n    slab_region_end += slab_region_size;"),
    (H, "            if (size == 0) {\n                size = 16;\n            }\n            c->size_divisor = libdivide_u32_gen(size);\n            size_t slab_size = get_slab_size(get_slots(class), size);\n            c->slab_size_divisor = libdivide_u64_gen(slab_size);\n            c->slab_info", "            if (size == 0) {\n                size = min_align;\n            }\n            size_t slab_size = get_slab_size(get_slots(class), size);\n            c->slab_size_divisor = libdivide_u64_gen(slab_size);\n            c->size_divisor = libdivide_u32_gen(size);\n            c->slab_info"),
    (H, "    size_t offset = (const char *)p - (const char *)ro.slab_region_start;\n    unsigned arena = 0;\n    if (N_ARENA > 1) {\n        arena = offset / ARENA_SIZE;\n        offset -= arena * ARENA_SIZE;\n    }\n    return (struct slab_size_class_info){arena, offset / REAL_CLASS_REGION_SIZE};", "    const uintptr_t offset = (uintptr_t)p - (uintptr_t)ro.slab_region_start;\n    const unsigned arena = N_ARENA > 1 ? offset / ARENA_SIZE : 0;\n    const size_t class = (offset % ARENA_SIZE) / REAL_CLASS_REGION_SIZE;\n    return (struct slab_size_class_info){arena, class};"),
    (H, "    size_t i = region - ra->regions;\n    for (;;) {\n        ra->regions[i].p = NULL;\n        ra->regions[i].size = 0;\n        size_t j = i;\n        for (;;) {\n            i = (i - 1) & mask;\n            if (ra->regions[i].p == NULL) {\n                return;\n            }\n            size_t r = hash_page(ra->regions[i].p) & mask;\n            if ((i <= r && r < j) || (r < j && j < i) || (j < i && i <= r)) {\n                continue;\n            }\n            ra->regions[j] = ra->regions[i];\n            break;\n        }\n    }", "    size_t hole = region - ra->regions;\n    size_t i = hole;\n    ra->regions[hole].p = NULL;\n    ra->regions[hole].size = 0;\n    while (ra->regions[i = (i - 1) & mask].p != NULL) {\n        size_t home = hash_page(ra->regions[i].p) & mask;\n        // distance from the home slot, in probe direction\n        if (((home - i) & mask) < ((hole - i) & mask)) {\n            continue;\n        }\n        ra->regions[hole] = ra->regions[i];\n        ra->regions[i].p = NULL;\n        ra->regions[i].size = 0;\n        hole = i;\n    }"),
    (H, "    for (size_t i = 0; i < ra->total; i++) {\n        const void *q = ra->regions[i].p;\n        if (q != NULL) {\n            size_t index = hash_page(q) & mask;\n            while (p[index].p != NULL) {\n                index = (index - 1) & mask;\n            }\n            p[index] = ra->regions[i];\n        }\n    }", "    const struct region_metadata *end = ra->regions + ra->total;\n    for (const struct region_metadata *r = ra->regions; r != end; r++) {\n        if (r->p == NULL) {\n            continue;\n        }\n        size_t index = hash_page(r->p) & mask;\n        for (; p[index].p != NULL; index = (index - 1) & mask) {\n        }\n        p[index] = *r;\n    }"))
