# composites in the style of other programmers
eqv("st_alloc",
    rep(H, "static inline void *allocate_small(unsigned arena, size_t requested_size) {", '''
enum slab_source {
    SLAB_PARTIAL,
    SLAB_CACHED,
    SLAB_FREE,
    SLAB_FRESH,
};

static enum slab_source choose_slab(const struct size_class *c) {
    if (c->partial_slabs) {
        return SLAB_PARTIAL;
    }
    if (c->empty_slabs) {
        return SLAB_CACHED;
    }
    return c->free_slabs_head ? SLAB_FREE : SLAB_FRESH;
}

static inline void *allocate_small(unsigned arena, size_t requested_size) {
    const struct size_info info = get_size_info(requested_size);
    const bool is_zero_size = info.size == 0;
    const size_t size = unlikely(is_zero_size) ? 16 : info.size;
    const size_t slots = get_slots(info.class);
    const size_t slab_size = get_slab_size(slots, size);

    struct size_class *const c = &ro.size_class_metadata[arena][info.class];
    struct slab_metadata *metadata = NULL;
    void *p = NULL;

    mutex_lock(&c->lock);

    const enum slab_source source = choose_slab(c);
    switch (source) {
    case SLAB_PARTIAL:
        metadata = c->partial_slabs;
        break;
    case SLAB_CACHED:
        metadata = c->empty_slabs;
        c->empty_slabs = metadata->next;
        c->empty_slabs_total -= slab_size;
        break;
    case SLAB_FREE:
        metadata = c->free_slabs_head;
        set_slab_canary_value(metadata, &c->rng);
        if (!is_zero_size && memory_protect_rw(get_slab(c, slab_size, metadata), slab_size)) {
            goto out;
        }
        c->free_slabs_head = metadata->next;
        if (c->free_slabs_head == NULL) {
            c->free_slabs_tail = NULL;
        }
        break;
    case SLAB_FRESH:
        metadata = alloc_metadata(c, slab_size, requested_size);
        if (unlikely(metadata == NULL)) {
            goto out;
        }
        set_slab_canary_value(metadata, &c->rng);
        break;
    }

    if (source == SLAB_CACHED || source == SLAB_FREE) {
        metadata->next = NULL;
        metadata->prev = NULL;
    }

    const size_t slot = get_free_slot(&c->rng, slots, metadata);
    set_used_slot(metadata, slot);

    if (source == SLAB_PARTIAL) {
        if (!has_free_slots(slots, metadata)) {
            struct slab_metadata *next = metadata->next;
            c->partial_slabs = next;
            if (next) {
                next->prev = NULL;
            }
        }
    } else {
        c->partial_slabs = slots > 1 ? metadata : NULL;
    }

    p = slot_pointer(size, get_slab(c, slab_size, metadata), slot);
    if (!is_zero_size) {
        if (source == SLAB_PARTIAL || source == SLAB_CACHED) {
            write_after_free_check(p, size - canary_size);
        }
        set_canary(metadata, p, size);
#ifdef HAS_ARM_MTE
        if (likely(is_memtag_enabled())) {
            p = tag_and_clear_slab_slot(metadata, p, slot, size);
        }
#endif
    }
    if (source == SLAB_FREE || source == SLAB_FRESH) {
        stats_slab_allocate(c, slab_size);
    }
    stats_small_allocate(c, size);

out:
    mutex_unlock(&c->lock);
    return p;
}
'''))

eqv("st_dealloc",
    rep(H, "static inline void deallocate_small(void *p, const size_t *expected_size) {", '''
struct slot_position {
    struct slab_metadata *metadata;
    void *slab;
    size_t slot;
};

static inline struct slot_position locate_slot(const struct size_class *c, size_t slab_size, const void *p) {
    struct slot_position at;
    at.metadata = get_metadata(c, p);
    at.slab = get_slab(c, slab_size, at.metadata);
    at.slot = libdivide_u32_do((const char *)p - (char *)at.slab, &c->size_divisor);
    return at;
}

static inline void wipe_slot(struct slab_metadata *metadata, void *p, size_t size) {
    check_canary(metadata, p, size);
#ifdef HAS_ARM_MTE
    if (likely(is_memtag_enabled())) {
        arm_mte_tag_and_clear_mem(set_pointer_tag(p, RESERVED_TAG), size);
        return;
    }
#endif
    if (ZERO_ON_FREE) {
        memset(p, 0, size - canary_size);
    }
}

// returns the slot leaving the quarantine or NULL
static inline void *pass_slab_quarantine(UNUSED struct size_class *c, UNUSED size_t size, void *p) {
#if SLAB_QUARANTINE
    const size_t shift = clz64(size) - (63 - MAX_SLAB_SIZE_CLASS_SHIFT);
#endif
#if SLAB_QUARANTINE_RANDOM_LENGTH > 0
    {
        const size_t length = (size_t)SLAB_QUARANTINE_RANDOM_LENGTH << shift;
        size_t index;
        if (length > UINT16_MAX) {
            index = get_random_u64_uniform(&c->rng, length);
        } else {
            index = get_random_u16_uniform(&c->rng, length);
        }
        void **place = &c->quarantine_random[index];
        void *held = *place;
        *place = p;
        p = held;
    }
#endif
#if SLAB_QUARANTINE_QUEUE_LENGTH > 0
    if (p != NULL) {
        const size_t length = (size_t)SLAB_QUARANTINE_QUEUE_LENGTH << shift;
        void **place = &c->quarantine_queue[c->quarantine_queue_index++];
        void *held = *place;
        if (c->quarantine_queue_index == length) {
            c->quarantine_queue_index = 0;
        }
        *place = p;
        p = held;
    }
#endif
    return p;
}

static void unlink_partial(struct size_class *c, struct slab_metadata *metadata) {
    struct slab_metadata *next = metadata->next, *prev = metadata->prev;
    if (next) {
        next->prev = prev;
    }
    if (prev) {
        prev->next = next;
    } else {
        c->partial_slabs = next;
    }
    metadata->prev = NULL;
}

// returns false if the slab has to be cached although there are too many
static bool retire_slab(struct size_class *c, struct slab_metadata *metadata, void *slab, size_t slab_size, unsigned class) {
    if (map_unused_slab(slab, slab_size)) {
        memory_purge(slab, slab_size);
        return false;
    }
    label_slab(slab, slab_size, class);
    stats_slab_deallocate(c, slab_size);
    enqueue_free_slab(c, metadata);
    return true;
}

static inline void deallocate_small(void *p, const size_t *expected_size) {
    const struct slab_size_class_info where = slab_size_class(p);
    size_t size = size_classes[where.class];
    if (expected_size != NULL && unlikely(*expected_size != size)) {
        fatal_error("sized deallocation mismatch (small)");
    }
    const bool is_zero_size = !size;
    if (unlikely(is_zero_size)) {
        size = 16;
    }
    const size_t slots = get_slots(where.class);
    const size_t slab_size = get_slab_size(slots, size);
    struct size_class *c = &ro.size_class_metadata[where.arena][where.class];
    const int saved_errno = errno;

    mutex_lock(&c->lock);

    struct slot_position at = locate_slot(c, slab_size, p);
    if (unlikely(slot_pointer(size, at.slab, at.slot) != p)) {
        fatal_error("invalid unaligned free");
    }
    if (unlikely(!is_used_slot(at.metadata, at.slot))) {
        fatal_error("double free");
    }
    if (likely(!is_zero_size)) {
        wipe_slot(at.metadata, p, size);
    }

#if SLAB_QUARANTINE
    if (unlikely(is_quarantine_slot(at.metadata, at.slot))) {
        fatal_error("double free (quarantine)");
    }
    set_quarantine_slot(at.metadata, at.slot);

    p = pass_slab_quarantine(c, size, p);
    if (p == NULL) {
        goto out;
    }
    at = locate_slot(c, slab_size, p);
    clear_quarantine_slot(at.metadata, at.slot);
#endif

    const bool was_full = !has_free_slots(slots, at.metadata);
    clear_used_slot(at.metadata, at.slot);
    if (was_full) {
        struct slab_metadata *first = c->partial_slabs;
        at.metadata->prev = NULL;
        at.metadata->next = first;
        if (first) {
            first->prev = at.metadata;
        }
        c->partial_slabs = at.metadata;
    }

    if (!is_free_slab(at.metadata)) {
        goto out;
    }

    unlink_partial(c, at.metadata);
    if (c->empty_slabs_total + slab_size <= max_empty_slabs_total ||
            !retire_slab(c, at.metadata, at.slab, slab_size, where.class)) {
        at.metadata->next = c->empty_slabs;
        c->empty_slabs = at.metadata;
        c->empty_slabs_total += slab_size;
    }

out:
    stats_small_deallocate(c, size);
    errno = saved_errno;
    mutex_unlock(&c->lock);
}
'''))

eqv("st_regions",
    rep(H, "static int regions_insert(void *p, size_t size, size_t guard_size) {", '''
static size_t region_slot(const struct region_allocator *ra, const void *p) {
    return hash_page(p) & (ra->total - 1);
}

static size_t region_next(const struct region_allocator *ra, size_t index) {
    return (index ? index : ra->total) - 1;
}

static int regions_insert(void *p, size_t size, size_t guard_size) {
    struct region_allocator *const ra = ro.region_allocator;

    const bool crowded = ra->total > ra->free * 4;
    if (crowded && regions_grow()) {
        return 1;
    }

    size_t at;
    for (at = region_slot(ra, p); ra->regions[at].p; at = region_next(ra, at)) {
    }
    ra->regions[at] = (struct region_metadata){
        .p = p,
        .size = size,
        .guard_size = guard_size,
    };
    ra->free -= 1;
    return 0;
}
'''),
    rep(H, "static struct region_metadata *regions_find(const void *p) {", '''
static struct region_metadata *regions_find(const void *p) {
    const struct region_allocator *ra = ro.region_allocator;

    if (p == NULL) {
        return NULL;
    }
    for (size_t at = region_slot(ra, p);; at = region_next(ra, at)) {
        struct region_metadata *candidate = &ra->regions[at];
        if (candidate->p == p) {
            return candidate;
        }
        if (candidate->p == NULL) {
            return NULL;
        }
    }
}
'''),
    rep(H, "static void regions_delete(const struct region_metadata *region) {", '''
static void regions_delete(const struct region_metadata *region) {
    struct region_allocator *ra = ro.region_allocator;
    const size_t mask = ra->total - 1;
    struct region_metadata *const table = ra->regions;

    size_t hole = region - table;
    table[hole] = (struct region_metadata){.guard_size = table[hole].guard_size};
    for (size_t i = (hole - 1) & mask; table[i].p != NULL; i = (i - 1) & mask) {
        const size_t home = hash_page(table[i].p) & mask;
        // an entry may fill the hole if the hole lies on its way from its home
        if (((home - hole) & mask) <= ((home - i) & mask)) {
            table[hole] = table[i];
            table[i].p = NULL;
            table[i].size = 0;
            hole = i;
        }
    }
    ra->free++;
}
'''))

eqv("st_memory",
    rep("memory.c", "void *memory_map(size_t size) {", '''
static bool failed_with_enomem(bool failed, const char *message) {
    if (likely(!failed)) {
        return false;
    }
    if (errno == ENOMEM) {
        return true;
    }
    fatal_error(message);
}

static void *anonymous(void *address, size_t size, int prot, int flags) {
    return mmap(address, size, prot, MAP_PRIVATE | MAP_ANONYMOUS | flags, -1, 0);
}

void *memory_map(size_t size) {
    void *const p = anonymous(NULL, size, PROT_NONE, 0);
    return failed_with_enomem(p == MAP_FAILED, "non-ENOMEM mmap failure") ? NULL : p;
}
'''),
    rep("memory.c", "bool memory_map_fixed(void *ptr, size_t size) {", '''
bool memory_map_fixed(void *ptr, size_t size) {
    return failed_with_enomem(anonymous(ptr, size, PROT_NONE, MAP_FIXED) == MAP_FAILED, "non-ENOMEM MAP_FIXED mmap failure");
}
'''),
    rep("memory.c", "bool memory_unmap(void *ptr, size_t size) {", '''
bool memory_unmap(void *ptr, size_t size) {
    return failed_with_enomem(munmap(ptr, size) != 0, "non-ENOMEM munmap failure");
}
'''),
    rep("memory.c", "static bool memory_protect_prot(void *ptr, size_t size, int prot, UNUSED int pkey) {", '''
static bool memory_protect_prot(void *ptr, size_t size, int prot, UNUSED int pkey) {
    int rc;
#ifdef USE_PKEY
    rc = pkey_mprotect(ptr, size, prot, pkey);
#else
    rc = mprotect(ptr, size, prot);
#endif
    return failed_with_enomem(rc < 0, "non-ENOMEM mprotect failure");
}
'''))

eqv("st_api",
    rep(H, "EXPORT void *h_calloc(size_t nmemb, size_t size) {", '''
static bool multiply(size_t a, size_t b, size_t *result) {
    if (a != 0 && b > SIZE_MAX / a) {
        return false;
    }
    *result = a * b;
    return true;
}

EXPORT void *h_calloc(size_t nmemb, size_t size) {
    size_t total;
    if (!multiply(nmemb, size, &total)) {
        errno = ENOMEM;
        return NULL;
    }
    total = adjust_size_for_canary(total);
    void *p = alloc(total);
    if (p == NULL || ZERO_ON_FREE) {
        return p;
    }
    if (total > 0 && total <= max_slab_size_class) {
        memset(p, 0, total - canary_size);
    }
    return p;
}
'''),
    rep(H, "EXPORT void h_free(void *p) {", '''
static inline bool in_slab_region(const void *p) {
    return p < get_slab_region_end() && p >= ro.slab_region_start;
}

EXPORT void h_free(void *tagged) {
    if (tagged != NULL) {
        void *const p = untag_pointer(tagged);
        if (!in_slab_region(p)) {
            int saved_errno = errno;
            deallocate_large(p, NULL);
            errno = saved_errno;
        } else {
            thread_unseal_metadata();
            deallocate_small(p, NULL);
        }
        thread_seal_metadata();
    }
}
'''),
    rep(H, "static void free_sized_aligned(void *p, size_t expected_size, size_t alignment) {", '''
static size_t expected_class_size(size_t size, size_t alignment) {
    if (alignment <= min_align || alignment > PAGE_SIZE) {
        return get_size_info(size).size;
    }
    return get_size_info_align(size, alignment).size;
}

static void free_sized_aligned(void *p, size_t expected_size, size_t alignment) {
    if (p != NULL) {
        expected_size = adjust_size_for_canary(expected_size);
        p = untag_pointer(p);
        const bool small = in_slab_region(p);
        if (small && unlikely(expected_size > max_slab_size_class)) {
            fatal_error("sized deallocation mismatch (small)");
        }
        if (small) {
            thread_unseal_metadata();
            expected_size = expected_class_size(expected_size, alignment);
            deallocate_small(p, &expected_size);
        } else {
            deallocate_large(p, &expected_size);
        }
        thread_seal_metadata();
    }
}
'''))

eqv("st_rng",
    rep("random.c", "static void get_random_seed(void *buf, size_t size) {", '''
static void get_random_seed(void *buf, size_t size) {
    u8 *pos = buf;
    u8 *const end = pos + size;

    while (pos != end) {
        const ssize_t n = getrandom(pos, end - pos, 0);
        if (n > 0) {
            pos += n;
        } else if (n == 0 || errno != EINTR) {
            fatal_error("getrandom failed");
        }
    }
}
'''),
    rep("random.c", "void random_state_init(struct random_state *state) {", '''
static void start_stream(struct random_state *state, const u8 seed[CHACHA_KEY_SIZE + CHACHA_IV_SIZE]) {
    state->reseed = 0;
    state->index = RANDOM_CACHE_SIZE;
    chacha_keysetup(&state->ctx, seed);
    chacha_ivsetup(&state->ctx, &seed[CHACHA_KEY_SIZE]);
}

void random_state_init(struct random_state *state) {
    u8 seed[CHACHA_KEY_SIZE + CHACHA_IV_SIZE];
    get_random_seed(seed, sizeof(seed));
    start_stream(state, seed);
}
'''),
    rep("random.c", "void random_state_init_from_random_state(", '''
void random_state_init_from_random_state(struct random_state *state, struct random_state *source) {
    u8 seed[CHACHA_KEY_SIZE + CHACHA_IV_SIZE];
    get_random_bytes(source, seed, sizeof(seed));
    start_stream(state, seed);
}
'''),
    rep("random.c", "void get_random_bytes(struct random_state *state, void *buf, size_t size) {", '''
static size_t cached(struct random_state *state, size_t wanted) {
    size_t left = RANDOM_CACHE_SIZE - state->index;
    if (left < wanted) {
        refill(state);
        left = RANDOM_CACHE_SIZE;
    }
    return left;
}

void get_random_bytes(struct random_state *state, void *buf, size_t size) {
    if (RANDOM_CACHE_SIZE / 2 < size) {
        chacha_keystream_bytes(&state->ctx, buf, size);
        return;
    }

    u8 *out = buf;
    while (size > 0) {
        const size_t n = min(cached(state, 1), size);
        memcpy(out, &state->cache[state->index], n);
        state->index += n;
        out += n;
        size -= n;
    }
}
'''),
    rep("random.c", "u16 get_random_u16(struct random_state *state) {", '''
u16 get_random_u16(struct random_state *state) {
    u16 value;
    cached(state, sizeof(value));
    memcpy(&value, &state->cache[state->index], sizeof(value));
    state->index += sizeof(value);
    return value;
}
'''),
    rep("random.c", "u64 get_random_u64(struct random_state *state) {", '''
u64 get_random_u64(struct random_state *state) {
    u64 value;
    cached(state, sizeof(value));
    memcpy(&value, &state->cache[state->index], sizeof(value));
    state->index += sizeof(value);
    return value;
}
'''),
    rep("random.c", "u64 get_random_u64_uniform(struct random_state *state, u64 bound) {", '''
u64 get_random_u64_uniform(struct random_state *state, u64 bound) {
    u128 product = (u128)get_random_u64(state) * bound;
    if ((u64)product < bound) {
        const u64 threshold = (0 - bound) % bound;
        for (; (u64)product < threshold; product = (u128)get_random_u64(state) * bound) {
        }
    }
    return product >> 64;
}
'''))

eqv("st_init",
    rep(H, "COLD static void init_slow_path(void) {", '''
static void require(bool success, const char *message) {
    if (unlikely(!success)) {
        fatal_error(message);
    }
}

static struct allocator_state *reserve_state(struct random_state *rng) {
    const size_t guard_pages = get_random_u64_uniform(rng, REAL_CLASS_REGION_SIZE / PAGE_SIZE) + 1;
    struct allocator_state *state =
        allocate_pages(sizeof(*state), guard_pages * PAGE_SIZE, false, "malloc allocator_state");
    require(state != NULL, "failed to reserve allocator state");
    require(!memory_protect_rw_metadata(state, offsetof(struct allocator_state, regions_a)),
            "failed to unprotect allocator state");
    return state;
}

static void setup_regions(struct allocator_state *state, struct random_state *rng) {
    struct region_allocator *ra = &state->region_allocator;
    ro.region_allocator = ra;
    ro.regions[0] = state->regions_a;
    ro.regions[1] = state->regions_b;
    mutex_init(&ra->lock);
    random_state_init_from_random_state(&ra->rng, rng);
    ra->total = ra->free = INITIAL_REGION_TABLE_SIZE;
    ra->regions = ro.regions[0];
    require(!memory_protect_rw_metadata(ra->regions, INITIAL_REGION_TABLE_SIZE * sizeof(struct region_metadata)),
            "failed to unprotect memory for regions table");
}

static void setup_class(struct allocator_state *state, unsigned arena, unsigned class, struct random_state *rng) {
    struct size_class *c = &ro.size_class_metadata[arena][class];
    const size_t size = size_classes[class] ? size_classes[class] : 16;

    mutex_init(&c->lock);
    random_state_init_from_random_state(&c->rng, rng);

    c->slab_info = state->slab_info_mapping[arena][class].slab_info;
    c->size_divisor = libdivide_u32_gen(size);
    c->slab_size_divisor = libdivide_u64_gen(get_slab_size(get_slots(class), size));

    const size_t gap_pages = get_random_u64_uniform(rng, (REAL_CLASS_REGION_SIZE - CLASS_REGION_SIZE) / PAGE_SIZE - 1) + 1;
    char *window = (char *)ro.slab_region_start + ARENA_SIZE * arena + REAL_CLASS_REGION_SIZE * class;
    c->class_region_start = window + gap_pages * PAGE_SIZE;
    label_slab(c->class_region_start, CLASS_REGION_SIZE, class);
}

COLD static void init_slow_path(void) {
    mutex_lock(&init_lock);
    if (unlikely(is_init())) {
        goto done;
    }

#ifdef USE_PKEY
    ro.metadata_pkey = pkey_alloc(0, 0);
#endif

    require(sysconf(_SC_PAGESIZE) == PAGE_SIZE,
            "runtime page size does not match compile-time page size which is not supported");

    struct random_state *rng = allocate_pages(sizeof(struct random_state), PAGE_SIZE, true, "malloc init rng");
    require(rng != NULL, "failed to allocate init rng");
    random_state_init(rng);

    struct allocator_state *state = reserve_state(rng);
    setup_regions(state, rng);

#ifdef HAS_ARM_MTE
    ro.slab_region_start = is_memtag_enabled() ? memory_map_mte(slab_region_size) : memory_map(slab_region_size);
#else
    ro.slab_region_start = memory_map(slab_region_size);
#endif
    require(ro.slab_region_start != NULL, "failed to allocate slab region");
    memory_set_name(ro.slab_region_start, slab_region_size, "malloc slab region gap");

    for (unsigned i = 0; i < N_ARENA * N_SIZE_CLASSES; i++) {
        const unsigned arena = i / N_SIZE_CLASSES;
        ro.size_class_metadata[arena] = state->size_class_metadata[arena];
        setup_class(state, arena, i % N_SIZE_CLASSES, rng);
    }

    deallocate_pages(rng, sizeof(struct random_state), PAGE_SIZE);

    atomic_store_explicit(&ro.slab_region_end, (void *)((char *)ro.slab_region_start + slab_region_size), memory_order_release);
    require(!memory_protect_ro(&ro, sizeof(ro)), "failed to protect allocator data");
    memory_set_name(&ro, sizeof(ro), "malloc read-only after init");

    mutex_unlock(&init_lock);
    thread_seal_metadata();
    require(pthread_atfork(full_lock, full_unlock, post_fork_child) == 0, "pthread_atfork failed");
    return;

done:
    mutex_unlock(&init_lock);
}
'''))

eqv("st_size",
    rep(H, "static inline struct size_info get_size_info(size_t size) {", '''
static inline struct size_info get_size_info(size_t size) {
    if (unlikely(size == 0)) {
        return (struct size_info){0, 0};
    }
    if (size <= 128) {
        const size_t units = (size + 15) / 16;
        return (struct size_info){units * 16, units};
    }

    // position of the highest bit of size - 1 gives the group of four classes
    const unsigned top = 63 - clz64(size - 1);
    const unsigned shift = top - 2;
    const size_t steps = ((size - 1) >> shift) + 1;
    return (struct size_info){steps << shift, (top - 7) * 4 + 9 + (steps - 5)};
}
'''))

eqv("st_trim",
    rep(H, "static void full_lock(void) {", '''
static struct size_class *nth_class(unsigned n) {
    return &ro.size_class_metadata[n / N_SIZE_CLASSES][n % N_SIZE_CLASSES];
}

static void full_lock(void) {
    thread_unseal_metadata();
    mutex_lock(&ro.region_allocator->lock);
    unsigned n = 0;
    while (n < N_ARENA * N_SIZE_CLASSES) {
        mutex_lock(&nth_class(n++)->lock);
    }
    thread_seal_metadata();
}
'''),
    rep(H, "static void full_unlock(void) {", '''
static void full_unlock(void) {
    thread_unseal_metadata();
    unsigned n = N_ARENA * N_SIZE_CLASSES;
    do {
        n--;
        mutex_unlock(&nth_class(n)->lock);
    } while (n != 0);
    mutex_unlock(&ro.region_allocator->lock);
    thread_seal_metadata();
}
'''),
    rep(H, "static int regions_grow(void) {", '''
static void rehash(const struct region_metadata *from, size_t n, struct region_metadata *to, size_t mask) {
    for (const struct region_metadata *e = from; e != from + n; e++) {
        if (e->p == NULL) {
            continue;
        }
        size_t at = hash_page(e->p) & mask;
        for (; to[at].p != NULL; at = (at - 1) & mask) {
        }
        to[at] = *e;
    }
}

static int regions_grow(void) {
    struct region_allocator *ra = ro.region_allocator;
    const size_t total = ra->total;
    struct region_metadata *const old = ra->regions;
    const size_t old_size = total * sizeof(*old);

    if (total > MAX_REGION_TABLE_SIZE / 2) {
        return 1;
    }

    struct region_metadata *fresh = ro.regions[old == ro.regions[0]];
    if (memory_protect_rw_metadata(fresh, old_size * 2)) {
        return 1;
    }

    rehash(old, total, fresh, total * 2 - 1);
    if (unlikely(memory_map_fixed(old, old_size))) {
        // the table is expected to be empty when this range is used again
        memory_purge(old, old_size);
    }
    memory_set_name(old, old_size, "malloc allocator_state");

    ra->regions = fresh;
    ra->free += total;
    ra->total += total;
    return 0;
}
'''))


def body(f, start, end):
    """text of file f from `start` up to (not including) `end`"""
    s = open("/repo/" + f).read()
    i = s.index(start)
    return s[i:s.index(end, i)] if end else s[i:]


eqv("st_pages",
    rep("pages.c", "static bool add_guards(size_t size, size_t guard_size, size_t *total_size) {", '''
// size of a reservation with guards on both sides, or 0 if it cannot be represented
static size_t with_guards(size_t size, size_t guard_size) {
    size_t guards;
    size_t total;
    if (__builtin_mul_overflow(guard_size, (size_t)2, &guards) || __builtin_add_overflow(size, guards, &total)) {
        return 0;
    }
    return total;
}

static void *out_of_memory(void) {
    errno = ENOMEM;
    return NULL;
}

static char *reserve(size_t total, const char *name) {
    char *real = memory_map(total);
    if (likely(real != NULL)) {
        memory_set_name(real, total, name);
    }
    return real;
}
'''),
    rep("pages.c", "void *allocate_pages(size_t usable_size, size_t guard_size, bool unprotect, const char *name) {", '''
void *allocate_pages(size_t usable_size, size_t guard_size, bool unprotect, const char *name) {
    if (unlikely(usable_size > SIZE_MAX - guard_size || usable_size + guard_size > SIZE_MAX - guard_size)) {
        return out_of_memory();
    }
    const size_t total = usable_size + 2 * guard_size;
    char *const real = reserve(total, name);
    if (unlikely(!real)) {
        return NULL;
    }
    char *const usable = real + guard_size;
    if (!unprotect) {
        return usable;
    }
    if (likely(!memory_protect_rw(usable, usable_size))) {
        return usable;
    }
    memory_unmap(real, total);
    return NULL;
}
'''),
    rep("pages.c", "void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_size, const char *name) {", '''
void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_size, const char *name) {
    const size_t size = page_align(usable_size);
    if (unlikely(size == 0)) {
        return out_of_memory();
    }

    size_t slack = alignment - PAGE_SIZE;
    size_t span;
    size_t total = 0;
    if (!__builtin_add_overflow(size, slack, &span)) {
        total = with_guards(span, guard_size);
    }
    if (unlikely(total == 0)) {
        return out_of_memory();
    }

    char *start = reserve(total, name);
    if (unlikely(start == NULL)) {
        return NULL;
    }

    const uintptr_t first = (uintptr_t)start + guard_size;
    const uintptr_t base = (first + (alignment - 1)) & -(uintptr_t)alignment;
    const size_t lead = base - first;
    const size_t trail = slack - lead;

    if (unlikely(memory_protect_rw((void *)base, size))) {
        goto fail;
    }
    if (lead != 0) {
        if (unlikely(memory_unmap(start, lead))) {
            goto fail;
        }
        start += lead;
        total -= lead;
    }
    if (trail != 0 && unlikely(memory_unmap((void *)(base + size + guard_size), trail))) {
        goto fail;
    }
    return (void *)base;

fail:
    memory_unmap(start, total);
    return NULL;
}
'''),
    rep("pages.c", "void deallocate_pages(void *usable, size_t usable_size, size_t guard_size) {", '''
void deallocate_pages(void *usable, size_t usable_size, size_t guard_size) {
    char *const begin = (char *)usable - guard_size;
    char *const end = (char *)usable + usable_size + guard_size;
    if (likely(!memory_unmap(begin, end - begin))) {
        return;
    }
    memory_purge(usable, usable_size);
}
'''),
    rep("pages.h", "static inline size_t page_align(size_t size) {", '''
static inline size_t page_align(size_t size) {
    return (size + (PAGE_SIZE - 1)) / PAGE_SIZE * PAGE_SIZE;
}
'''),
    rep("pages.h", "static inline size_t hash_page(const void *p) {", '''
static inline size_t hash_page(const void *p) {
    const uintptr_t page = (uintptr_t)p / PAGE_SIZE;
    size_t sum = page;
    for (unsigned shift = 16; shift <= 48; shift += 16) {
        sum = sum * 127 + (page >> shift);
    }
    return sum;
}
'''))


eqv("st_chacha", ("chacha.c", body("chacha.c", "void chacha_keysetup(", None), '''
static void load_words(u32 *to, const u8 *from, unsigned n) {
    for (unsigned i = 0; i < n; i++) {
        to[i] = U8TO32_LITTLE(from + 4 * i);
    }
}

void chacha_keysetup(chacha_ctx *x, const u8 *k) {
    load_words(&x->input[0], (const u8 *)sigma, 4);
    load_words(&x->input[4], k, 8);
}

void chacha_ivsetup(chacha_ctx *x, const u8 *iv) {
    load_words(&x->input[14], iv, 2);
    x->input[12] = 0;
    x->input[13] = 0;
}

static void permute(u32 x[16]) {
    for (unsigned i = 0; i < rounds / 2; i++) {
        for (unsigned j = 0; j < 4; j++) {
            QUARTERROUND(x[j], x[4 + j], x[8 + j], x[12 + j])
        }
        for (unsigned j = 0; j < 4; j++) {
            QUARTERROUND(x[j], x[4 + (j + 1) % 4], x[8 + (j + 2) % 4], x[12 + (j + 3) % 4])
        }
    }
}

static void next_block(u32 state[16], u8 *out) {
    u32 w[16];
    for (unsigned i = 0; i < 16; i++) {
        w[i] = state[i];
    }
    permute(w);
    for (unsigned i = 0; i < 16; i++) {
        w[i] = PLUS(w[i], state[i]);
        U32TO8_LITTLE(out + 4 * i, w[i]);
    }
    state[12] = PLUSONE(state[12]);
    if (state[12] == 0) {
        state[13] = PLUSONE(state[13]);
    }
}

void chacha_keystream_bytes(chacha_ctx *x, u8 *c, u32 bytes) {
    while (bytes >= 64) {
        next_block(x->input, c);
        c += 64;
        bytes -= 64;
    }
    if (bytes) {
        u8 last[64];
        next_block(x->input, last);
        for (u32 i = 0; i < bytes; i++) {
            c[i] = last[i];
        }
    }
}
'''.lstrip("\n")))


eqv("st_util",
    ("util.c", body("util.c", "#ifndef __ANDROID__\nstatic int write_full", "COLD noreturn"), '''
#ifndef __ANDROID__
static bool put(const char *s, size_t n) {
    while (n > 0) {
        const ssize_t done = write(STDERR_FILENO, s, n);
        if (done >= 0) {
            s += done;
            n -= (size_t)done;
        } else if (errno != EINTR) {
            return false;
        }
    }
    return true;
}

static bool put_string(const char *s) {
    return put(s, strlen(s));
}
#endif

'''.lstrip("\n")),
    ("util.c", body("util.c", '    const char *prefix = "fatal', "    abort();"), '''    if (put_string("fatal allocator error: ") && put_string(s)) {
        put("\\n", 1);
    }
'''),
    rep("util.h", "static inline int ffz64(u64 x) {", '''
static inline int ffz64(u64 x) {
    return x == UINT64_MAX ? 0 : __builtin_ctzll(~x) + 1;
}
'''),
    rep("util.h", "static inline u64 log2u64(u64 x) {", '''
static inline u64 log2u64(u64 x) {
    return (U64_WIDTH - 1) ^ clz64(x);
}
'''),
    rep("util.h", "static inline size_t align(size_t size, size_t align) {", '''
static inline size_t align(size_t size, size_t align) {
    return (size + align - 1) & -align;
}
'''),
    rep("util.h", "static inline void u4_arr_set(u8 *arr, size_t idx, u8 val) {", '''
static inline void u4_arr_set(u8 *arr, size_t idx, u8 val) {
    u8 *at = &arr[idx / 2];
    if (idx % 2) {
        *at = (u8) ((*at & 0x0f) | (val << 4));
    } else {
        *at = (u8) ((*at & 0xf0) | val);
    }
}
'''),
    rep("util.h", "static inline u8 u4_arr_get(const u8 *arr, size_t idx) {", '''
static inline u8 u4_arr_get(const u8 *arr, size_t idx) {
    const u8 both = arr[idx / 2];
    return idx % 2 ? both >> 4 : both & 0xf;
}
'''),
    ("memtag.h", "    const uintptr_t mask = UINTPTR_MAX >> 8;\n    return (void *) ((uintptr_t) ptr & mask);", "    return (void *) ((uintptr_t) ptr << 8 >> 8);"),
    ("memtag.h", "    return (((uintptr_t) ptr) >> 56) & 0xf;", "    return (u8) ((((uintptr_t) ptr) << 4) >> 60);"),
    rep("mutex.h", "static inline void mutex_init(struct mutex *m) {", '''
static inline void mutex_init(struct mutex *m) {
    const int error = pthread_mutex_init(&m->lock, NULL);
    if (error != 0) {
        fatal_error("mutex initialization failed");
    }
}
'''))


eqv("st_new", ("new.cc", body("new.cc", "COLD static void *handle_out_of_memory(size_t size, bool nothrow)", None), '''
namespace {

struct plain {
    size_t size;
    void *operator()() const {
        return h_malloc(size);
    }
};

struct aligned {
    size_t size;
    size_t alignment;
    void *operator()() const {
        return h_aligned_alloc(alignment, size);
    }
};

// calls the new-handler once, returns false if the caller has to give up
bool make_room() {
    const std::new_handler handler = std::get_new_handler();
    if (!handler) {
        return false;
    }
    try {
        handler();
    } catch (const std::bad_alloc &) {
        return false;
    }
    return true;
}

template <typename T>
void *obtain(const T &allocate, bool nothrow) {
    for (;;) {
        void *const ptr = allocate();
        if (likely(ptr != nullptr)) {
            return ptr;
        }
        if (!make_room()) {
            break;
        }
    }
    if (!nothrow) {
        std::__throw_bad_alloc();
    }
    return nullptr;
}

}

EXPORT void *operator new(size_t size) {
    return obtain(plain{size}, false);
}

EXPORT void *operator new[](size_t size) {
    return obtain(plain{size}, false);
}

EXPORT void *operator new(size_t size, const std::nothrow_t &) noexcept {
    return obtain(plain{size}, true);
}

EXPORT void *operator new[](size_t size, const std::nothrow_t &) noexcept {
    return obtain(plain{size}, true);
}

EXPORT void *operator new(size_t size, std::align_val_t alignment) {
    return obtain(aligned{size, static_cast<size_t>(alignment)}, false);
}

EXPORT void *operator new[](size_t size, std::align_val_t alignment) {
    return obtain(aligned{size, static_cast<size_t>(alignment)}, false);
}

EXPORT void *operator new(size_t size, std::align_val_t alignment, const std::nothrow_t &) noexcept {
    return obtain(aligned{size, static_cast<size_t>(alignment)}, true);
}

EXPORT void *operator new[](size_t size, std::align_val_t alignment, const std::nothrow_t &) noexcept {
    return obtain(aligned{size, static_cast<size_t>(alignment)}, true);
}

''' + "\n\n".join("EXPORT void operator delete%s(void *ptr%s) noexcept {\n    %s;\n}" % x for x in (
    ("", "", "h_free(ptr)"), ("[]", "", "h_free(ptr)"),
    ("", ", const std::nothrow_t &", "h_free(ptr)"), ("[]", ", const std::nothrow_t &", "h_free(ptr)"),
    ("", ", size_t size", "h_free_sized(ptr, size)"), ("[]", ", size_t size", "h_free_sized(ptr, size)"),
    ("", ", std::align_val_t", "h_free(ptr)"), ("[]", ", std::align_val_t", "h_free(ptr)"),
    ("", ", std::align_val_t, const std::nothrow_t &", "h_free(ptr)"), ("[]", ", std::align_val_t, const std::nothrow_t &", "h_free(ptr)"),
    ("", ", size_t size, std::align_val_t alignment", "h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size)"),
    ("[]", ", size_t size, std::align_val_t alignment", "h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size)"))) + "\n"))


mut("large_errno", "C22", (H, "    size = get_large_size_class(size);\n    if (unlikely(!size)) {\n        errno = ENOMEM;\n        return NULL;", "    size = get_large_size_class(size);\n    if (unlikely(!size)) {\n        return NULL;"))
mut("get_state_true", "C28", (H, "    errno = ENOSYS;\n    return NULL;", "    errno = ENOSYS;\n    return (void *)1;"))
mut("calloc_errno", "C22", (H, "&total_size))) {\n        errno = ENOMEM;\n        return NULL;\n    }\n    total_size = adjust_size_for_canary(total_size);\n    void *p = alloc(total_size);", "&total_size))) {\n        return NULL;\n    }\n    total_size = adjust_size_for_canary(total_size);\n    void *p = alloc(total_size);"))
