# composites written with whole functions replaced
def src(f):
    return open("/repo/" + f).read()


def F(f, start):
    """the text of a definition (from start to the closing brace in column 0)"""
    s = src(f)
    i = s.index(start)
    return s[i:s.index("\n}\n", i) + 3]


def rep(f, start, new):
    return (f, F(f, start), new.lstrip("\n"))


eqv("combo_fork",
    rep(H, "static void full_lock(void) {", '''
static void for_each_class(void (*fn)(struct size_class *c)) {
    for (unsigned i = 0; i < N_ARENA * N_SIZE_CLASSES; i++) {
        fn(&ro.size_class_metadata[i / N_SIZE_CLASSES][i % N_SIZE_CLASSES]);
    }
}

static void lock_class(struct size_class *c) {
    mutex_lock(&c->lock);
}

static void unlock_class(struct size_class *c) {
    mutex_unlock(&c->lock);
}

static void reset_class(struct size_class *c) {
    random_state_init(&c->rng);
    mutex_init(&c->lock);
}

static void full_lock(void) {
    thread_unseal_metadata();
    mutex_lock(&ro.region_allocator->lock);
    for_each_class(lock_class);
    thread_seal_metadata();
}
'''),
    rep(H, "static void full_unlock(void) {", '''
static void full_unlock(void) {
    thread_unseal_metadata();
    for_each_class(unlock_class);
    mutex_unlock(&ro.region_allocator->lock);
    thread_seal_metadata();
}
'''),
    rep(H, "static void post_fork_child(void) {", '''
static void post_fork_child(void) {
    thread_unseal_metadata();

    struct region_allocator *ra = ro.region_allocator;
    random_state_init(&ra->rng);
    mutex_init(&ra->lock);
    for_each_class(reset_class);
    thread_seal_metadata();
}
'''))
eqv("combo_chacha",
    (CH, "static const char sigma[16] = \"expand 32-byte k\";\n", '''static const char sigma[16] = "expand 32-byte k";

static inline u32 rotate_left(u32 v, unsigned n) {
    return v << n | v >> (32 - n);
}

static inline void quarter_round(u32 *a, u32 *b, u32 *c, u32 *d) {
    *a += *b;
    *d = rotate_left(*d ^ *a, 16);
    *c += *d;
    *b = rotate_left(*b ^ *c, 12);
    *a += *b;
    *d = rotate_left(*d ^ *a, 8);
    *c += *d;
    *b = rotate_left(*b ^ *c, 7);
}
'''),
    rep(CH, "void chacha_keysetup(", '''
void chacha_keysetup(chacha_ctx *x, const u8 *k) {
    for (unsigned i = 0; i < 4; i++) {
        x->input[i] = U8TO32_LITTLE(sigma + 4 * i);
    }
    for (unsigned i = 0; i < 8; i++) {
        x->input[4 + i] = U8TO32_LITTLE(k + 4 * i);
    }
}
'''),
    rep(CH, "void chacha_keystream_bytes(", '''
static void chacha_block(const u32 *in, u8 *out) {
    u32 w[16];
    for (unsigned i = 0; i < 16; i++) {
        w[i] = in[i];
    }
    for (unsigned i = 0; i < rounds / 2; i++) {
        quarter_round(&w[0], &w[4], &w[8], &w[12]);
        quarter_round(&w[1], &w[5], &w[9], &w[13]);
        quarter_round(&w[2], &w[6], &w[10], &w[14]);
        quarter_round(&w[3], &w[7], &w[11], &w[15]);
        quarter_round(&w[0], &w[5], &w[10], &w[15]);
        quarter_round(&w[1], &w[6], &w[11], &w[12]);
        quarter_round(&w[2], &w[7], &w[8], &w[13]);
        quarter_round(&w[3], &w[4], &w[9], &w[14]);
    }
    for (unsigned i = 0; i < 16; i++) {
        u32 v = w[i] + in[i];
        U32TO8_LITTLE(out + 4 * i, v);
    }
}

void chacha_keystream_bytes(chacha_ctx *x, u8 *c, u32 bytes) {
    while (bytes) {
        u8 tmp[64];
        u8 *target = bytes < 64 ? tmp : c;
        chacha_block(x->input, target);
        x->input[12]++;
        if (x->input[12] == 0) {
            x->input[13]++;
        }
        if (bytes < 64) {
            for (u32 i = 0; i < bytes; i++) {
                c[i] = tmp[i];
            }
            return;
        }
        c += 64;
        bytes -= 64;
    }
}
'''))
eqv("combo_new",
    rep("new.cc", "COLD static void *handle_out_of_memory(size_t size, bool nothrow) {", '''
static bool call_new_handler() {
    std::new_handler handler = std::get_new_handler();
    if (handler == nullptr) {
        return false;
    }
    try {
        handler();
    } catch (const std::bad_alloc &) {
        return false;
    }
    return true;
}

template <typename Allocate>
COLD static void *retry(Allocate allocate, bool nothrow) {
    while (call_new_handler()) {
        void *ptr = allocate();
        if (ptr != nullptr) {
            return ptr;
        }
    }
    if (nothrow) {
        return nullptr;
    }
    std::__throw_bad_alloc();
}
'''),
    rep("new.cc", "static inline void *new_impl(size_t size, bool nothrow) {", '''
static inline void *new_impl(size_t size, bool nothrow) {
    void *ptr = h_malloc(size);
    return likely(ptr != nullptr) ? ptr : retry([=] { return h_malloc(size); }, nothrow);
}
'''),
    ("new.cc", F("new.cc", "COLD static void *handle_out_of_memory(size_t size, size_t alignment, bool nothrow) {") + "\n", ""),
    rep("new.cc", "static inline void *new_impl(size_t size, size_t alignment, bool nothrow) {", '''
static inline void *new_impl(size_t size, size_t alignment, bool nothrow) {
    if (void *ptr = h_aligned_alloc(alignment, size)) {
        return ptr;
    }
    return retry([=] { return h_aligned_alloc(alignment, size); }, nothrow);
}
'''))
eqv("combo_slotref",
    (H, "// preserves errno\nstatic inline void deallocate_small(", '''struct slot_ref {
    struct size_class *c;
    struct slab_metadata *metadata;
    void *slab;
    size_t slot;
    size_t size;
    size_t class;
    size_t slab_size;
};

// the class lock must be held
static inline void find_slot(struct slot_ref *ref, const void *p) {
    ref->metadata = get_metadata(ref->c, p);
    ref->slab = get_slab(ref->c, ref->slab_size, ref->metadata);
    ref->slot = libdivide_u32_do((const char *)p - (const char *)ref->slab, &ref->c->size_divisor);
}

static inline struct slot_ref lock_slot(const void *p) {
    struct slab_size_class_info info = slab_size_class(p);
    struct slot_ref ref = {
        .c = &ro.size_class_metadata[info.arena][info.class],
        .class = info.class,
        .size = size_classes[info.class] ? size_classes[info.class] : 16,
    };
    ref.slab_size = get_slab_size(get_slots(info.class), ref.size);
    mutex_lock(&ref.c->lock);
    find_slot(&ref, p);
    return ref;
}

// preserves errno
static inline void deallocate_small('''),
    (H, '''    struct slab_size_class_info size_class_info = slab_size_class(p);
    size_t class = size_class_info.class;
    struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];
    size_t size = size_classes[class];
    bool is_zero_size = size == 0;
    if (unlikely(is_zero_size)) {
        size = 16;
    }
    size_t slab_size = get_slab_size(get_slots(class), size);

    mutex_lock(&c->lock);

    const struct slab_metadata *metadata = get_metadata(c, p);
    void *slab = get_slab(c, slab_size, metadata);
    size_t slot = libdivide_u32_do((const char *)p - (const char *)slab, &c->size_divisor);
''', '''    const struct slot_ref ref = lock_slot(p);
    struct size_class *c = ref.c;
    const struct slab_metadata *metadata = ref.metadata;
    void *slab = ref.slab;
    size_t slot = ref.slot;
    size_t size = ref.size;
    bool is_zero_size = ref.class == 0;
'''),
    (H, '''        struct slab_size_class_info size_class_info = slab_size_class(p);
        size_t class = size_class_info.class;
        size_t size_class = size_classes[class];
        if (unlikely(size_class == 0)) {
            size_class = 16;
        }
        struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];

        mutex_lock(&c->lock);

        const struct slab_metadata *metadata = get_metadata(c, p);
        size_t slab_size = get_slab_size(get_slots(class), size_class);
        void *slab = get_slab(c, slab_size, metadata);
        size_t slot = libdivide_u32_do((const char *)p - (const char *)slab, &c->size_divisor);
''', '''        const struct slot_ref ref = lock_slot(p);
        struct size_class *c = ref.c;
        const struct slab_metadata *metadata = ref.metadata;
        void *slab = ref.slab;
        size_t slot = ref.slot;
        size_t size_class = ref.size;
'''),
    (H, '''    metadata = get_metadata(c, p);
    slab = get_slab(c, slab_size, metadata);
    slot = libdivide_u32_do((char *)p - (char *)slab, &c->size_divisor);

    clear_quarantine''', '''    struct slot_ref out = {.c = c, .class = class, .size = size, .slab_size = slab_size};
    find_slot(&out, p);
    metadata = out.metadata;
    slab = out.slab;
    slot = out.slot;

    clear_quarantine'''))
eqv("combo_regions",
    rep(H, "static int regions_grow(void) {", '''
static size_t region_index(const struct region_metadata *table, size_t total, const void *p) {
    const size_t mask = total - 1;
    size_t index = hash_page(p) & mask;
    for (;;) {
        const void *q = table[index].p;
        if (q == NULL || q == p) {
            return index;
        }
        index = (index + mask) & mask;
    }
}

static int regions_grow(void) {
    struct region_allocator *ra = ro.region_allocator;

    const size_t total = ra->total;
    if (total > SIZE_MAX / sizeof(struct region_metadata) / 2 || total * 2 > MAX_REGION_TABLE_SIZE) {
        return 1;
    }

    struct region_metadata *old = ra->regions;
    struct region_metadata *p = ro.regions[old == ro.regions[0]];

    if (memory_protect_rw_metadata(p, total * 2 * sizeof(*p))) {
        return 1;
    }

    for (struct region_metadata *r = old; r < old + total; r++) {
        if (r->p == NULL) {
            continue;
        }
        p[region_index(p, total * 2, r->p)] = *r;
    }

    const size_t old_size = total * sizeof(*old);
    if (unlikely(memory_map_fixed(old, old_size))) {
        memory_purge(old, old_size);
    }
    memory_set_name(old, old_size, "malloc allocator_state");
    ra->regions = p;
    ra->total = total * 2;
    ra->free += total;
    return 0;
}
'''),
    rep(H, "static int regions_insert(", '''
static int regions_insert(void *p, size_t size, size_t guard_size) {
    struct region_allocator *ra = ro.region_allocator;

    if (ra->free * 4 < ra->total && regions_grow()) {
        return 1;
    }

    ra->regions[region_index(ra->regions, ra->total, p)] =
        (struct region_metadata){.p = p, .size = size, .guard_size = guard_size};
    ra->free--;
    return 0;
}
'''),
    rep(H, "static struct region_metadata *regions_find(", '''
static struct region_metadata *regions_find(const void *p) {
    const struct region_allocator *ra = ro.region_allocator;
    struct region_metadata *r = &ra->regions[region_index(ra->regions, ra->total, p)];
    return p != NULL && r->p == p ? r : NULL;
}
'''),
    rep(H, "static void regions_delete(", '''
// whether the cyclic interval [from, to) contains index
static bool in_interval(size_t from, size_t to, size_t index) {
    return from <= to ? from <= index && index < to : from <= index || index < to;
}

static void regions_delete(const struct region_metadata *region) {
    struct region_allocator *ra = ro.region_allocator;

    const size_t mask = ra->total - 1;
    size_t hole = region - ra->regions;

    ra->free++;
    ra->regions[hole].p = NULL;
    ra->regions[hole].size = 0;

    for (size_t i = (hole - 1) & mask; ra->regions[i].p != NULL; i = (i - 1) & mask) {
        size_t r = hash_page(ra->regions[i].p) & mask;
        if (in_interval(i, hole, r)) {
            continue;
        }
        ra->regions[hole] = ra->regions[i];
        ra->regions[i].p = NULL;
        ra->regions[i].size = 0;
        hole = i;
    }
}
'''))
eqv("combo_util",
    ("util.h", "    return __builtin_ffsll(~x);", "    return ~x ? __builtin_ctzll(~x) + 1 : 0;"),
    ("util.h", "    return U64_WIDTH - clz64(x) - 1;", "    return (U64_WIDTH - 1) ^ (u64)clz64(x);"),
    ("util.h", "    size_t mask = align - 1;\n    return (size + mask) & ~mask;", "    return (size + align - 1) & -align;"),
    ("util.h", "    u8 mask = (u8) (0xf0 >> shift);\n    arr[off] = (arr[off] & mask) | (val << shift);", "    u8 keep = (u8) ~(0xf << shift);\n    arr[off] = (u8) ((arr[off] & keep) | (val << shift));"),
    ("util.h", "    size_t off = idx >> 1;\n    size_t shift = (idx & 1) << 2;\n    return (u8) ((arr[off] >> shift) & 0xf);", "    u8 both = arr[idx / 2];\n    return idx % 2 ? both >> 4 : both & 0xf;"),
    (H, '''    if (size <= 128) {
        return (struct size_info){align(size, 16), ((size - 1) >> 4) + 1};
    }
''', '''    if (size <= 128) {
        size_t units = (size + 15) / 16;
        return (struct size_info){units * 16, units};
    }
'''),
    (H, '''    size_t spacing_class_index = (real_size >> spacing_class_shift) - initial_spacing_multiplier;
    size_t index = (spacing_class_shift - 4) * 4 + special_small_sizes + spacing_class_index;
    return (struct size_info){real_size, index};''', '''    size_t steps = real_size / spacing_class;
    return (struct size_info){
        .size = real_size,
        .class = special_small_sizes + 4 * (spacing_class_shift - 4) + steps - initial_spacing_multiplier,
    };'''),
    (H, '''    for (unsigned class = 1; class < N_SIZE_CLASSES; class++) {
        size_t real_size = size_classes[class];
        if (size <= real_size && !(real_size & (alignment - 1))) {
            return (struct size_info){real_size, class};
        }
    }
    fatal_error("invalid size for slabs");''', '''    unsigned class = 1;
    while (class < N_SIZE_CLASSES && (size_classes[class] < size || size_classes[class] % alignment != 0)) {
        class++;
    }
    if (class == N_SIZE_CLASSES) {
        fatal_error("invalid size for slabs");
    }
    return (struct size_info){size_classes[class], class};'''),
    (H, "    return page_align(slots * size);", "    size_t bytes = slots * size;\n    size_t rest = bytes & (PAGE_SIZE - 1);\n    return rest ? bytes + PAGE_SIZE - rest : bytes;"))
eqv("combo_rng",
    rep(RN, "static void get_random_seed(", '''
static ssize_t get_entropy(void *buf, size_t size) {
    for (;;) {
        ssize_t r = getrandom(buf, size, 0);
        if (r != -1 || errno != EINTR) {
            return r;
        }
    }
}

static void get_random_seed(void *buf, size_t size) {
    char *at = buf;
    char *end = at + size;
    while (at != end) {
        ssize_t r = get_entropy(at, end - at);
        if (r < 1) {
            fatal_error("getrandom failed");
        }
        at += r;
    }
}

static void set_seed(struct random_state *state, const u8 *rnd) {
    state->reseed = 0;
    state->index = RANDOM_CACHE_SIZE;
    chacha_keysetup(&state->ctx, rnd);
    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);
}
'''),
    rep(RN, "void random_state_init(", '''
void random_state_init(struct random_state *state) {
    u8 rnd[CHACHA_KEY_SIZE + CHACHA_IV_SIZE];
    get_random_seed(rnd, sizeof(rnd));
    set_seed(state, rnd);
}
'''),
    rep(RN, "void random_state_init_from_random_state(", '''
void random_state_init_from_random_state(struct random_state *state, struct random_state *source) {
    u8 rnd[CHACHA_KEY_SIZE + CHACHA_IV_SIZE];
    get_random_bytes(source, rnd, sizeof(rnd));
    set_seed(state, rnd);
}
'''),
    rep(RN, "void get_random_bytes(", '''
void get_random_bytes(struct random_state *state, void *buf, size_t size) {
    if (size > RANDOM_CACHE_SIZE / 2) {
        chacha_keystream_bytes(&state->ctx, buf, size);
        return;
    }

    u8 *to = buf;
    for (size_t left = size; left > 0;) {
        if (state->index == RANDOM_CACHE_SIZE) {
            refill(state);
        }
        size_t n = RANDOM_CACHE_SIZE - state->index;
        if (n > left) {
            n = left;
        }
        memcpy(to, state->cache + state->index, n);
        state->index += n;
        to += n;
        left -= n;
    }
}

static inline const u8 *take(struct random_state *state, unsigned size) {
    if (RANDOM_CACHE_SIZE - state->index < size) {
        refill(state);
    }
    const u8 *p = &state->cache[state->index];
    state->index += size;
    return p;
}
'''),
    rep(RN, "u16 get_random_u16(", '''
u16 get_random_u16(struct random_state *state) {
    u16 value;
    memcpy(&value, take(state, sizeof(value)), sizeof(value));
    return value;
}
'''),
    rep(RN, "u64 get_random_u64(", '''
u64 get_random_u64(struct random_state *state) {
    u64 value;
    memcpy(&value, take(state, sizeof(value)), sizeof(value));
    return value;
}
'''),
    rep(RN, "u16 get_random_u16_uniform(", '''
u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
    u32 product = (u32)get_random_u16(state) * bound;
    if ((u16)product < bound) {
        const u16 threshold = (0x10000 - bound) % bound;
        for (; (u16)product < threshold; ) {
            product = (u32)get_random_u16(state) * bound;
        }
    }
    return product / 0x10000;
}
'''),
    rep(RN, "u64 get_random_u64_uniform(", '''
u64 get_random_u64_uniform(struct random_state *state, u64 bound) {
    u128 product = (u128)get_random_u64(state) * bound;
    u64 low = product;
    if (low < bound) {
        const u64 threshold = (0 - bound) % bound;
        while (low < threshold) {
            product = (u128)get_random_u64(state) * bound;
            low = product;
        }
    }
    return (u64)(product >> 64);
}
'''))
eqv("combo_query",
    (H, "EXPORT size_t h_malloc_usable_size(H_MALLOC_USABLE_SIZE_CONST void *arg) {", '''static inline bool in_slab_region(const void *p) {
    return p < get_slab_region_end() && p >= ro.slab_region_start;
}

static inline size_t usable_in_slab(const void *p) {
    size_t size = slab_usable_size(p);
    return size == 0 ? 0 : size - canary_size;
}

// size of the large allocation starting at p or 0
static size_t large_size(const void *p) {
    struct region_allocator *ra = ro.region_allocator;
    mutex_lock(&ra->lock);
    const struct region_metadata *region = regions_find(p);
    size_t size = region != NULL ? region->size : 0;
    mutex_unlock(&ra->lock);
    return size;
}

EXPORT size_t h_malloc_usable_size(H_MALLOC_USABLE_SIZE_CONST void *arg) {'''),
    (H, '''    if (p < get_slab_region_end() && p >= ro.slab_region_start) {
        thread_unseal_metadata();
        memory_corruption_check_small(p);
        thread_seal_metadata();

        size_t size = slab_usable_size(p);
        return size ? size - canary_size : 0;
    }

    enforce_init();
    thread_unseal_metadata();

    struct region_allocator *ra = ro.region_allocator;
    mutex_lock(&ra->lock);
    const struct region_metadata *region = regions_find(p);
    if (unlikely(region == NULL)) {
        fatal_error("invalid malloc_usable_size");
    }
    size_t size = region->size;
    mutex_unlock(&ra->lock);

    thread_seal_metadata();
    return size;''', '''    size_t size;
    if (in_slab_region(p)) {
        thread_unseal_metadata();
        memory_corruption_check_small(p);
        size = usable_in_slab(p);
    } else {
        enforce_init();
        thread_unseal_metadata();
        size = large_size(p);
        if (unlikely(size == 0)) {
            fatal_error("invalid malloc_usable_size");
        }
    }
    thread_seal_metadata();
    return size;'''),
    (H, '''    const void *slab_region_end = get_slab_region_end();
    if (p < slab_region_end && p >= ro.slab_region_start) {
        size_t size = slab_usable_size(p);
        return size ? size - canary_size : 0;
    }

    if (unlikely(slab_region_end == NULL)) {
        return 0;
    }

    return SIZE_MAX;''', '''    if (in_slab_region(p)) {
        return usable_in_slab(p);
    }
    return likely(is_init()) ? SIZE_MAX : 0;'''),
    (H, '''    struct region_allocator *ra = ro.region_allocator;
    mutex_lock(&ra->lock);
    const struct region_metadata *region = regions_find(p);
    size_t size = region == NULL ? SIZE_MAX : region->size;
    mutex_unlock(&ra->lock);

    thread_seal_metadata();
    return size;
}

EXPORT size_t h_malloc_object_size_fast''', '''    size_t size = large_size(p);
    thread_seal_metadata();
    return size ? size : SIZE_MAX;
}

EXPORT size_t h_malloc_object_size_fast'''),
    rep(H, "EXPORT int h_malloc_trim(", '''
static bool release_empty_slabs(struct size_class *c, unsigned class, size_t slab_size) {
    bool released = false;
    for (;;) {
        struct slab_metadata *metadata = c->empty_slabs;
        if (metadata == NULL) {
            break;
        }
        void *slab = get_slab(c, slab_size, metadata);
        if (map_unused_slab(slab, slab_size)) {
            break;
        }
        c->empty_slabs = metadata->next;
        c->empty_slabs_total -= slab_size;
        label_slab(slab, slab_size, class);
        stats_slab_deallocate(c, slab_size);
        enqueue_free_slab(c, metadata);
        released = true;
    }
    return released;
}

#if SLAB_QUARANTINE && CONFIG_EXTENDED_SIZE_CLASSES
static void purge_all(void *const *list, size_t length, size_t size) {
    void *const *end = list + length;
    for (; list != end; list++) {
        if (*list == NULL) {
            continue;
        }
        memory_purge(*list, size);
    }
}

static void purge_quarantine(struct size_class *c, size_t size) {
    size_t shift = clz64(size) - (63 - MAX_SLAB_SIZE_CLASS_SHIFT);
#if SLAB_QUARANTINE_RANDOM_LENGTH > 0
    purge_all(c->quarantine_random, (size_t)SLAB_QUARANTINE_RANDOM_LENGTH << shift, size);
#endif
#if SLAB_QUARANTINE_QUEUE_LENGTH > 0
    purge_all(c->quarantine_queue, (size_t)SLAB_QUARANTINE_QUEUE_LENGTH << shift, size);
#endif
}
#endif

EXPORT int h_malloc_trim(UNUSED size_t pad) {
    bool is_trimmed = false;

    if (likely(is_init())) {
        thread_unseal_metadata();

        for (unsigned arena = 0; arena < N_ARENA; arena++) {
            // skip zero byte size class since there's nothing to change
            for (unsigned class = 1; class < N_SIZE_CLASSES; class++) {
                struct size_class *c = &ro.size_class_metadata[arena][class];
                size_t size = size_classes[class];

                mutex_lock(&c->lock);
                is_trimmed |= release_empty_slabs(c, class, get_slab_size(get_slots(class), size));
#if SLAB_QUARANTINE && CONFIG_EXTENDED_SIZE_CLASSES
                if (size >= min_extended_size_class) {
                    purge_quarantine(c, size);
                }
#endif
                mutex_unlock(&c->lock);
            }
        }

        thread_seal_metadata();
    }

    return is_trimmed;
}
'''))
