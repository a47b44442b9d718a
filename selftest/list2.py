# -- C07: invalid frees of slab addresses
mut("c07_no_unaligned_small_slots", "C07", (H, "    if (unlikely(slot_pointer(size, slab, slot) != p)) {\n        fatal_error(\"invalid unaligned free\");", "    if (unlikely(slot_pointer(size, slab, slot) != p) && slots > 1) {\n        fatal_error(\"invalid unaligned free\");"))
mut("c07_unaligned_16", "C07", (H, "if (unlikely(slot_pointer(size, slab, slot) != p)) {", "if (unlikely((uintptr_t)p & (min_align - 1))) {"))
mut("c07_index_le", "C07", (H, "index >= c->metadata_allocated", "index > c->metadata_allocated"))
mut("c07_used_zero_size", "C07", (H, "    if (unlikely(!is_used_slot(metadata, slot))) {\n        fatal_error(\"double free\");", "    if (unlikely(!is_used_slot(metadata, slot)) && likely(!is_zero_size)) {\n        fatal_error(\"double free\");"))
mut("c07_quar_after_set", "C07", (H, "    if (unlikely(is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"double free (quarantine)\");\n    }\n\n    set_quarantine_slot(metadata, slot);", "    set_quarantine_slot(metadata, slot);\n\n    if (unlikely(!is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"double free (quarantine)\");\n    }"))
mut("c07_quar_last_bucket", "C07", (H, "    return (metadata->quarantine_bitmap[bucket] >> (index - bucket * U64_WIDTH)) & 1UL;", "    return bucket < 3 && ((metadata->quarantine_bitmap[bucket] >> (index - bucket * U64_WIDTH)) & 1UL);"))
mut("c07_single_slot_quar", "C07", (H, "    if (unlikely(is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"double free (quarantine)\");", "    if (unlikely(slots > 1 && is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"double free (quarantine)\");"))
mut("c07_zero_before_used", "C07", (H, "    if (unlikely(slot_pointer(size, slab, slot) != p)) {\n        fatal_error(\"invalid unaligned free\");\n    }\n\n    if (unlikely(!is_used_slot(metadata, slot))) {\n        fatal_error(\"double free\");\n    }\n", "    if (unlikely(!is_used_slot(metadata, slot))) {\n        fatal_error(\"double free\");\n    }\n    if (ZERO_ON_FREE && !is_zero_size) {\n        check_canary(metadata, p, size);\n        memset(p, 0, size - canary_size);\n    }\n    if (unlikely(slot_pointer(size, slab, slot) != p)) {\n        fatal_error(\"invalid unaligned free\");\n    }\n"))
mut("c07_random_before_quar", "C07", (H, "    if (unlikely(is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"double free (quarantine)\");\n    }\n\n    set_quarantine_slot(metadata, slot);", "    if (unlikely(!is_zero_size && is_quarantine_slot(metadata, slot))) {\n        fatal_error(\"double free (quarantine)\");\n    }\n\n    set_quarantine_slot(metadata, slot);"))
# -- C09
mut("c09_lower_only_small", "C09", (H, "if (expected_size && unlikely(size != *expected_size)) {\n        fatal_error(\"sized deallocation mismatch (small)\");", "if (expected_size && unlikely(size < *expected_size)) {\n        fatal_error(\"sized deallocation mismatch (small)\");"))
mut("c09_skip_zero", "C09", (H, "if (expected_size && unlikely(size != *expected_size)) {\n        fatal_error(\"sized deallocation mismatch (small)\");", "if (expected_size && *expected_size && unlikely(size != *expected_size)) {\n        fatal_error(\"sized deallocation mismatch (small)\");"))
mut("c09_large_raw", "C09", (H, "size != get_large_size_class(*expected_size)", "size != page_align(*expected_size)"))
mut("c09_array_delete", "C09", ("new.cc", "EXPORT void operator delete[](void *ptr, size_t size) noexcept {\n    h_free_sized(ptr, size);", "EXPORT void operator delete[](void *ptr, UNUSED size_t size) noexcept {\n    h_free(ptr);"))
mut("c09_aligned_delete_plain", "C09", ("new.cc", "EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t alignment) noexcept {\n    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);", "EXPORT void operator delete[](void *ptr, size_t size, UNUSED std::align_val_t alignment) noexcept {\n    h_free_sized(ptr, size);"))
mut("c09_large_after_delete", "C09", (H, "    if (expected_size && unlikely(size != get_large_size_class(*expected_size))) {\n        fatal_error(\"sized deallocation mismatch (large)\");\n    }\n    size_t guard_size = region->guard_size;\n    regions_delete(region);", "    size_t guard_size = region->guard_size;\n    regions_delete(region);\n    if (expected_size && unlikely(size != get_large_size_class(*expected_size))) {\n        fatal_error(\"sized deallocation mismatch (large)\");\n    }"))
# -- C10
mut("c10_no_set_partial", "C10", (H, "        write_after_free_check(p, size - canary_size);\n        set_canary(metadata, p, size);\n#ifdef HAS_ARM_MTE\n        if", "        write_after_free_check(p, size - canary_size);\n        if (slots > 1) {\n            set_canary(metadata, p, size);\n        }\n#ifdef HAS_ARM_MTE\n        if"))
mut("c10_reuse_value", "C10", (H, "            struct slab_metadata *metadata = c->free_slabs_head;\n            set_slab_canary_value(metadata, &c->rng);", "            struct slab_metadata *metadata = c->free_slabs_head;\n            if (!metadata->canary_value) {\n                set_slab_canary_value(metadata, &c->rng);\n            }"))
mut("c10_mask_low32", "C10", (H, "metadata->canary_value = get_random_u64(rng) & canary_mask;", "metadata->canary_value = (get_random_u64(rng) & 0xffffffffUL) & canary_mask;"))
mut("c10_mask_wrong_end", "C10", (H, "__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__ ?", "__BYTE_ORDER__ != __ORDER_LITTLE_ENDIAN__ ?"))
mut("c10_check_7", "C10", (H, "    if (unlikely(canary_value != metadata->canary_value)) {", "    if (unlikely(canary_value >> 8 != metadata->canary_value >> 8)) {"))
mut("c10_check_low", "C10", (H, "    if (unlikely(canary_value != metadata->canary_value)) {", "    if (unlikely((u32)canary_value != (u32)metadata->canary_value)) {"))
mut("c10_zero_canary_ok", "C10", (H, "    if (unlikely(canary_value != metadata->canary_value)) {", "    if (unlikely(canary_value != metadata->canary_value && canary_value != 0)) {"))
mut("c10_check_after_zero", "C10", (H, "    if (likely(!is_zero_size)) {\n        check_canary(metadata, p, size);\n\n        bool skip_zero = false;", "    if (likely(!is_zero_size)) {\n        bool skip_zero = false;"), (H, "            memset(p, 0, size - canary_size);\n        }\n    }\n\n#if SLAB_QUARANTINE", "            memset(p, 0, size - canary_size);\n        }\n        check_canary(metadata, p, size);\n    }\n\n#if SLAB_QUARANTINE"))
mut("c10_usable_plus", "C30", (H, "        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 0;", "        size_t size = slab_usable_size(p);\n        return size;"), nth=1)
mut("c10_malloc_no_adjust_large", "C10", (H, "    if (size > 0 && size <= max_slab_size_class) {\n        return size + canary_size;", "    if (size > 0 && size <= max_slab_size_class && size != 4096) {\n        return size + canary_size;"))
mut("c10_rng_seedless", "C10", (H, "metadata->canary_value = get_random_u64(rng) & canary_mask;", "metadata->canary_value = (get_random_u64(rng) | 0x8000) & canary_mask;"))
# -- C11
mut("c11_zero_cap", "C11", (H, "            memset(p, 0, size - canary_size);\n        }\n    }\n\n#if SLAB", "            memset(p, 0, min(size - canary_size, (size_t)65536));\n        }\n    }\n\n#if SLAB"))
mut("c11_zero_usable", "C11", (H, "            memset(p, 0, size - canary_size);\n        }\n    }\n\n#if SLAB", "            memset(p, 0, size - 2 * canary_size);\n        }\n    }\n\n#if SLAB"))
mut("c11_zero_expected", "C11", (H, "        if (ZERO_ON_FREE && !skip_zero) {\n", "        if (ZERO_ON_FREE && !skip_zero && (expected_size == NULL || *expected_size <= PAGE_SIZE)) {\n"))
mut("c11_zero_substitute", "C11", (H, "            memset(p, 0, size - canary_size);\n        }\n    }\n\n#if SLAB_QUARANTINE", "            if (slots > 1) {\n                memset(p, 0, size - canary_size);\n            }\n        }\n    }\n\n#if SLAB_QUARANTINE"))
mut("c11_zero_after_unlock", "C11", (H, "        if (ZERO_ON_FREE && !skip_zero) {\n            memset(p, 0, size - canary_size);\n        }\n    }\n", "        if (ZERO_ON_FREE && !skip_zero && c->empty_slabs_total + slab_size <= max_empty_slabs_total) {\n            memset(p, 0, size - canary_size);\n        }\n    }\n"))
mut("c11_zero_offset", "C11", (H, "            memset(p, 0, size - canary_size);\n        }\n    }\n\n#if SLAB", "            memset((char *)p + canary_size, 0, size - 2 * canary_size);\n        }\n    }\n\n#if SLAB"))
# -- C12
mut("c12_check_half", "C12", (H, "    for (size_t i = 0; i < size; i += sizeof(u64)) {\n        if (unlikely(*(const u64 *)(const void *)(p + i))) {", "    for (size_t i = 0; i < size; i += 2 * sizeof(u64)) {\n        if (unlikely(*(const u64 *)(const void *)(p + i))) {"))
mut("c12_check_32", "C12", (H, "if (unlikely(*(const u64 *)(const void *)(p + i))) {", "if (unlikely(*(const u32 *)(const void *)(p + i))) {"))
mut("c12_check_skip_first", "C12", (H, "for (size_t i = 0; i < size; i += sizeof(u64)) {\n        if (unlikely(*(const u64", "for (size_t i = sizeof(u64); i < size; i += sizeof(u64)) {\n        if (unlikely(*(const u64"))
mut("c12_empty_unchecked", "C12", (H, "            if (requested_size) {\n                write_after_free_check(p, size - canary_size);", "            if (requested_size) {\n                if (slots == 1) {\n                    write_after_free_check(p, size - canary_size);\n                }"))
mut("c12_check_requested", "C12", (H, "    void *p = slot_pointer(size, slab, slot);\n    if (requested_size) {\n        write_after_free_check(p, size - canary_size);", "    void *p = slot_pointer(size, slab, slot);\n    if (requested_size) {\n        write_after_free_check(p, requested_size - canary_size);"))
mut("c12_check_after_fill", "C12", (H, "if (unlikely(*(const u64 *)(const void *)(p + i))) {", "if (unlikely(*(const u64 *)(const void *)(p + i) & ~(u64)0xff)) {"))
mut("c12_ignore_pages", "C12", (H, "    for (size_t i = 0; i < size; i += sizeof(u64)) {\n        if (unlikely(*(const u64", "    for (size_t i = 0; i < min(size, (size_t)16384); i += sizeof(u64)) {\n        if (unlikely(*(const u64"))
# -- C13
mut("c13_random_wrong_len", "C13", (H, "        get_random_u16_uniform(&c->rng, slab_quarantine_random_length) :", "        get_random_u16_uniform(&c->rng, SLAB_QUARANTINE_RANDOM_LENGTH) :"))
mut("c13_random_over", "C13", (H, "size_t slab_quarantine_random_length = SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;", "size_t slab_quarantine_random_length = (SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift) + 1;"))
mut("c13_queue_first", "C13", (H, "    void *queue_substitute = c->quarantine_queue[c->quarantine_queue_index];\n    c->quarantine_queue[c->quarantine_queue_index] = p;\n    c->quarantine_queue_index = (c->quarantine_queue_index + 1) % slab_quarantine_queue_length;", "    c->quarantine_queue_index = (c->quarantine_queue_index + 1) % slab_quarantine_queue_length;\n    void *queue_substitute = c->quarantine_queue[0];\n    c->quarantine_queue[0] = p;"))
mut("c13_queue_lifo", "C13", (H, "c->quarantine_queue_index = (c->quarantine_queue_index + 1) % slab_quarantine_queue_length;", "c->quarantine_queue_index = c->quarantine_queue_index ? c->quarantine_queue_index - 1 : 0;"))
mut("c13_queue_off", "C13", (H, "(c->quarantine_queue_index + 1) % slab_quarantine_queue_length;", "(c->quarantine_queue_index + 1) % (slab_quarantine_queue_length + 1);"))
mut("c13_shift_all", "C13", (H, "size_t quarantine_shift = clz64(size) - (63 - MAX_SLAB_SIZE_CLASS_SHIFT);", "size_t quarantine_shift = clz64(size - 1) - (63 - MAX_SLAB_SIZE_CLASS_SHIFT);"))
mut("c13_big_bypass", "C13", (H, "    size_t quarantine_shift = clz64(size)", "    if (size > 65536) {\n        goto skip;\n    }\n    size_t quarantine_shift = clz64(size)"), (H, "    metadata = get_metadata(c, p);\n    slab = get_slab(c, slab_size, metadata);\n    slot = libdivide", "skip:\n    metadata = get_metadata(c, p);\n    slab = get_slab(c, slab_size, metadata);\n    slot = libdivide"))
mut("c13_keep_mark", "C13", (H, "    clear_quarantine_slot(metadata, slot);\n#endif", "    if (slots > 1) {\n        clear_quarantine_slot(metadata, slot);\n    }\n#endif"))
mut("c13_same_queue_null", "C13", (H, "    if (random_substitute == NULL) {\n        mutex_unlock(&c->lock);\n        return;\n    }\n\n    p = random_substitute;", "    if (random_substitute != NULL) {\n        p = random_substitute;\n    }"))
# -- C15
mut("c15_purge_total_ge", "C15", (H, "if (c->empty_slabs_total + slab_size > max_empty_slabs_total) {", "if (c->empty_slabs_total > max_empty_slabs_total) {"))
mut("c15_take_no_total", "C15", (H, "            c->empty_slabs_total -= slab_size;\n\n            metadata->next = NULL;", "            c->empty_slabs_total -= slots > 1 ? slab_size : 0;\n\n            metadata->next = NULL;"))
mut("c15_map_partial", "C15", (H, "if (!map_unused_slab(slab, slab_size)) {\n                label_slab(slab, slab_size, class);\n                // lab", "if (!memory_map_fixed(slab, size * slots & ~(size_t)4095)) {\n                label_slab(slab, slab_size, class);\n                // lab"))
mut("c15_rw_first_page", "C15", (H, "            if (requested_size && memory_protect_rw(slab, slab_size)) {", "            if (requested_size && memory_protect_rw(slab, slots > 1 ? slab_size : size - canary_size)) {"))
mut("c15_tail_lost", "C15", (H, "            if (c->free_slabs_head == NULL) {\n                c->free_slabs_tail = NULL;\n            }\n\n            metadata->next = NULL;", "            metadata->next = NULL;"), nth=1)
mut("c15_enqueue_front", "C15", (H, "    if (c->free_slabs_tail != NULL) {\n        c->free_slabs_tail->next = substitute;\n    } else {\n        c->free_slabs_head = substitute;\n    }\n    c->free_slabs_tail = substitute;", "    substitute->next = c->free_slabs_head;\n    c->free_slabs_head = substitute;\n    if (c->free_slabs_tail == NULL) {\n        c->free_slabs_tail = substitute;\n    }"))
mut("c15_no_unlink_prev", "C15", (H, "        if (metadata->next) {\n            metadata->next->prev = metadata->prev;\n        }\n\n        metadata->prev = NULL;", "        if (metadata->next && metadata->prev) {\n            metadata->next->prev = metadata->prev;\n        }\n\n        metadata->prev = NULL;"))
mut("c15_relink_prev", "C15", (H, "        if (c->partial_slabs) {\n            c->partial_slabs->prev = NULL;\n        }\n    }", "    }"))
mut("c15_full_link_once", "C15", (H, "        if (c->partial_slabs) {\n            c->partial_slabs->prev = metadata;\n        }\n        c->partial_slabs = metadata;", "        c->partial_slabs = metadata;"))
mut("c15_partial_one", "C15", (H, "            c->partial_slabs = slots > 1 ? metadata : NULL;\n\n            void *slab", "            c->partial_slabs = metadata;\n\n            void *slab"))
mut("c15_purge_success_kept", "C15", (H, "                enqueue_free_slab(c, metadata);\n                mutex_unlock(&c->lock);\n                return;", "                if (slots > 1) {\n                    enqueue_free_slab(c, metadata);\n                }\n                mutex_unlock(&c->lock);\n                return;"))
mut("c15_rand_len", "C15", (H, "get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH)", "get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH + 1)"))
mut("c15_rw_fail_pop", "C15", (H, "            if (requested_size && memory_protect_rw(slab, slab_size)) {\n                mutex_unlock(&c->lock);\n                return NULL;\n            }\n\n            c->free_slabs_head = c->free_slabs_head->next;", "            c->free_slabs_head = c->free_slabs_head->next;\n            if (requested_size && memory_protect_rw(slab, slab_size)) {\n                mutex_unlock(&c->lock);\n                return NULL;\n            }\n"))
# -- C16
mut("c16_alloc_rw", "C16", (H, "    if (non_zero_size && memory_protect_rw(slab, slab_size)) {", "    if ((non_zero_size || c->metadata_count) && memory_protect_rw(slab, slab_size)) {"))
mut("c16_write_check", "C16", (H, "    if (requested_size) {\n        write_after_free_check(p, size - canary_size);\n        set_canary", "    write_after_free_check(p, size - canary_size);\n    if (requested_size) {\n        set_canary"))
mut("c16_class_1", "C16", (H, "    if (unlikely(size == 0)) {\n        return (struct size_info){0, 0};", "    if (unlikely(size == 0)) {\n        return (struct size_info){0, 1};"))
mut("c16_usable_16", "C16 C30", (H, "        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 0;", "        size_t size = slab_usable_size(p);\n        return size ? size - canary_size : 8;"), nth=1)
mut("c16_copy_zero", "C16", (H, "    bool is_zero_size = size == 0;\n    if (unlikely(is_zero_size)) {\n        size = 16;\n    }\n    size_t slots = get_slots(class);\n    size_t slab_size = get_slab_size(slots, size);\n\n    mutex_lock(&c->lock);\n\n    stats", "    bool is_zero_size = size == 0 && expected_size == NULL;\n    if (unlikely(!size)) {\n        size = 16;\n    }\n    size_t slots = get_slots(class);\n    size_t slab_size = get_slab_size(slots, size);\n\n    mutex_lock(&c->lock);\n\n    stats"))
# -- C20
mut("c20_no_left", "C20", (H, "    tem |= (1 << u4_arr_get(slot_tags, slot_idx));\n", ""))
mut("c20_no_right", "C20", (H, "    tem |= (1 << u4_arr_get(slot_tags, slot_idx + 2));", "    tem |= (1 << u4_arr_get(slot_tags, slot_idx + 1));"))
mut("c20_no_prev", "C20", (H, "    tem |= (1 << u4_arr_get(slot_tags, slot_idx + 1));\n", ""))
mut("c20_no_reserved", "C20", (H, "    u64 tem = (1 << RESERVED_TAG);", "    u64 tem = 0;"))
mut("c20_part", "C20", (H, "    arm_mte_tag_and_clear_mem(tagged_ptr, slot_size);", "    arm_mte_tag_and_clear_mem(tagged_ptr, slot_size - canary_size);"))
mut("c20_not_recorded", "C20", (H, "    u4_arr_set(slot_tags, slot_idx + 1, get_pointer_tag(tagged_ptr));", "    u4_arr_set(slot_tags, slot_idx, get_pointer_tag(tagged_ptr));"))
mut("c20_free_keeps", "C20", (H, "arm_mte_tag_and_clear_mem(set_pointer_tag(p, RESERVED_TAG), size);", "arm_mte_tag_and_clear_mem(set_pointer_tag(p, get_pointer_tag(p)), size - canary_size);"))
mut("c20_empty_untagged", "C20", (H, "                if (likely(is_memtag_enabled())) {\n                    p = tag_and_clear_slab_slot(metadata, p, slot, size);\n                }\n#endif\n            }\n            stats_slab_allocate", "                if (likely(is_memtag_enabled()) && slots > 1) {\n                    p = tag_and_clear_slab_slot(metadata, p, slot, size);\n                }\n#endif\n            }\n            stats_slab_allocate"))
mut("c20_returned_untagged", "C20", (H, "        if (likely(is_memtag_enabled())) {\n            p = tag_and_clear_slab_slot(metadata, p, slot, size);\n        }\n#endif\n    }\n    stats_small_allocate(c, size);", "        if (likely(is_memtag_enabled())) {\n            tag_and_clear_slab_slot(metadata, p, slot, size);\n        }\n#endif\n    }\n    stats_small_allocate(c, size);"))
mut("c20_region_plain", "C20", (H, "        ro.slab_region_start = memory_map_mte(slab_region_size);", "        ro.slab_region_start = memory_map(slab_region_size);"))
mut("c20_untag_usable", "C20", (H, "    p = untag_const_pointer(p);\n\n    const void *slab_region_end = get_slab_region_end();\n    if (p < slab_region_end && p >= ro.slab_region_start) {\n        thread_unseal", "    const void *slab_region_end = get_slab_region_end();\n    if (p < slab_region_end && p >= ro.slab_region_start) {\n        thread_unseal"))
mut("c20_get_tag_mask", "C20", ("memtag.h", "return (((uintptr_t) ptr) >> 56) & 0xf;", "return (((uintptr_t) ptr) >> 56) & 0x7;"))
mut("c20_untag_half", "C20", ("memtag.h", "static inline void *untag_pointer(void *ptr) {\n#ifdef HAS_ARM_MTE\n    const uintptr_t mask = UINTPTR_MAX >> 8;", "static inline void *untag_pointer(void *ptr) {\n#ifdef HAS_ARM_MTE\n    const uintptr_t mask = UINTPTR_MAX >> 5;"))
# -- C28
mut("c28_no_cfree", "C28", (H, "EXPORT void h_cfree(void *ptr) ", "void h_cfree(void *ptr) "))
mut("c28_cfree_noop", "C28", (H, "EXPORT void h_cfree(void *ptr) ALIAS(h_free);", "EXPORT void h_cfree(UNUSED void *ptr) {}"))
mut("c28_extra_export", "C28", (H, "static size_t get_slots(unsigned class) {", "EXPORT size_t get_slots(unsigned class);\nEXPORT size_t get_slots(unsigned class) {"))
mut("c28_memalign_hidden", "C28", (H, "EXPORT void *h_memalign(", "void *h_memalign("))
mut("c28_del_missing", "C28", ("new.cc", "EXPORT void operator delete[](void *ptr, std::align_val_t, const std::nothrow_t &) noexcept {\n    h_free(ptr);\n}\n", ""))
mut("c28_valloc_missing", "C28", (H, "EXPORT void *h_valloc(", "void *h_valloc("))
# -- C29
mut("c29_nothrow_throws", "C29", ("new.cc", "EXPORT void *operator new[](size_t size, const std::nothrow_t &) noexcept {\n    return new_impl(size, true);", "EXPORT void *operator new[](size_t size, const std::nothrow_t &) noexcept {\n    return new_impl(size, false);"))
mut("c29_throw_null", "C29", ("new.cc", "EXPORT void *operator new[](size_t size) {\n    return new_impl(size, false);", "EXPORT void *operator new[](size_t size) {\n    return new_impl(size, true);"))
mut("c29_once", "C29", ("new.cc", "        ptr = h_malloc(size);\n    } while (ptr == nullptr);", "        ptr = h_malloc(size);\n    } while (false);"))
mut("c29_handler_stale", "C29", ("new.cc", "    void *ptr = nullptr;\n\n    do {\n        std::new_handler handler = std::get_new_handler();\n        if (handler == nullptr) {\n            break;\n        }\n\n        try {\n            handler();\n        } catch (const std::bad_alloc &) {\n            break;\n        }\n\n        ptr = h_malloc(size);", "    void *ptr = nullptr;\n    std::new_handler handler = std::get_new_handler();\n\n    do {\n        if (handler == nullptr) {\n            break;\n        }\n\n        try {\n            handler();\n        } catch (const std::bad_alloc &) {\n            break;\n        }\n\n        ptr = h_malloc(size);"))
mut("c29_handler_before_first", "C29", ("new.cc", "    } while (ptr == nullptr);\n\n    if (ptr == nullptr && !nothrow) {\n        std::__throw_bad_alloc();\n    }\n    return ptr;\n}\n\nstatic inline void *new_impl(size_t size, size_t alignment, bool nothrow) {", "    } while (ptr == nullptr && !nothrow);\n\n    if (ptr == nullptr && !nothrow) {\n        std::__throw_bad_alloc();\n    }\n    return ptr;\n}\n\nstatic inline void *new_impl(size_t size, size_t alignment, bool nothrow) {"))
mut("c29_align_swap", "C29", ("new.cc", "    void *ptr = h_aligned_alloc(alignment, size);\n    if (likely(", "    void *ptr = h_aligned_alloc(alignment, size ? size : 1);\n    if (likely("))
mut("c29_catch_all", "C29", ("new.cc", "        } catch (const std::bad_alloc &) {\n            break;\n        }\n\n        ptr = h_malloc(size);", "        } catch (...) {\n            break;\n        }\n\n        ptr = h_malloc(size);"))
mut("c29_delete_nothrow", "C29", ("new.cc", "EXPORT void operator delete[](void *ptr, const std::nothrow_t &) noexcept {\n    h_free(ptr);", "EXPORT void operator delete[](UNUSED void *ptr, const std::nothrow_t &) noexcept {\n"))
# -- C34
mut("c34_exit", "C34", ("util.c", "    abort();\n", "    _exit(134);\n"))
mut("c34_fprintf", "C34", ("util.c", "    (void)(write_full(STDERR_FILENO, prefix, strlen(prefix)) != -1 &&", "    fflush(NULL);\n    (void)(write_full(STDERR_FILENO, prefix, strlen(prefix)) != -1 &&"), ("util.c", "#include <stdlib.h>\n", "#include <stdlib.h>\n#include <stdio.h>\n"))
mut("c34_short", "C34", ("util.c", "        buf += bytes_written;\n", ""))
mut("c34_no_eintr", "C34", ("util.c", "            if (errno == EINTR) {\n                continue;\n            }\n            return -1;", "            continue;"))
mut("c34_loop_on_error", "C34", ("util.c", "if (errno == EINTR) {", "if (errno == EINTR || errno == EAGAIN) {"))
mut("c34_return_on_fail", "C34", ("util.c", "    (void)(write_full(STDERR_FILENO, prefix, strlen(prefix)) != -1 &&", "    if (write_full(STDERR_FILENO, prefix, strlen(prefix)) == -1) {\n        _exit(1);\n    }\n    (void)("), )
mut("c34_stdout", "C34", ("util.c", "write_full(STDERR_FILENO, s, strlen(s)) != -1", "write_full(STDOUT_FILENO, s, strlen(s)) != -1"))
mut("c34_direct_abort", "C34", (H, "        fatal_error(\"canary corrupted\");", "        abort();"))
mut("c34_strdup", "C34", ("util.c", "write_full(STDERR_FILENO, s, strlen(s)) != -1", "write_full(STDERR_FILENO, strdup(s), strlen(s)) != -1"))
# -- C35
mut("c35_shared", "C35", ("memory.c", "void *p = mmap(NULL, size, PROT_NONE, MAP_ANONYMOUS|MAP_PRIVATE, -1, 0);", "void *p = mmap(NULL, size, PROT_NONE, MAP_ANONYMOUS|MAP_SHARED, -1, 0);"))
mut("c35_exec", "C35", ("memory.c", "bool memory_protect_rw(void *ptr, size_t size) {\n    return memory_protect_prot(ptr, size, PROT_READ|PROT_WRITE, -1);", "bool memory_protect_rw(void *ptr, size_t size) {\n    return memory_protect_prot(ptr, size, PROT_READ|PROT_WRITE|PROT_EXEC, -1);"))
mut("c35_noreserve", "C35", ("memory.c", "MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED", "MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED|MAP_NORESERVE"))
mut("c35_populate", "C35", ("memory.c", "void *p = mmap(NULL, size, PROT_NONE, MAP_ANONYMOUS|MAP_PRIVATE, -1, 0);", "void *p = mmap(NULL, size, PROT_NONE, MAP_ANONYMOUS|MAP_PRIVATE|MAP_POPULATE, -1, 0);"))
mut("c35_rw_map", "C35", ("memory.c", "void *p = mmap(NULL, size, PROT_NONE, MAP", "void *p = mmap(NULL, size, PROT_READ|PROT_WRITE, MAP"))
mut("c35_free_advice", "C35", ("memory.c", "MADV_DONTNEED);", "8);"))
mut("c35_open", "C35", ("random.c", "        } while (r == -1 && errno == EINTR);\n", "        } while (r == -1 && errno == EINTR);\n        if (r == -1 && errno == ENOSYS) {\n            int fd = open(\"/dev/urandom\", O_RDONLY);\n            r = read(fd, buf, size);\n            close(fd);\n        }"), ("random.c", "#include <errno.h>\n", "#include <errno.h>\n#include <fcntl.h>\n#include <unistd.h>\n"))
mut("c35_sbrk", "C35", (H, "EXPORT int h_malloc_trim(UNUSED size_t pad) {", "#include <unistd.h>\nEXPORT int h_malloc_trim(UNUSED size_t pad) {\n    if (pad > 1) {\n        sbrk(0);\n    }"))
# -- C41
mut("c41_set_bucket", "C41", (H, "metadata->bitmap[bucket] |= 1UL << (index - bucket * U64_WIDTH);", "metadata->bitmap[bucket] |= 1U << (index - bucket * U64_WIDTH);"))
mut("c41_clear_all", "C41", (H, "metadata->bitmap[bucket] &= ~(1UL << (index - bucket * U64_WIDTH));", "metadata->bitmap[bucket] &= ~(1U << (index - bucket * U64_WIDTH));"))
mut("c41_first_word", "C41", (H, "            if (i == slots / U64_WIDTH) {\n                masked |= get_mask", "            if (i == first_bitmap && i == slots / U64_WIDTH) {\n                masked |= get_mask"))
mut("c41_split", "C41", (H, "            if (masked != ~0UL) {\n                return ffz64(masked) - 1 + i * U64_WIDTH;\n            }\n\n            i = ", "            if (masked != ~0UL) {\n                return ffz64(masked) - 1 + first_bitmap * U64_WIDTH;\n            }\n\n            i = "))
mut("c41_has_free_count", "C41", (H, "    return metadata->count < slots;", "    return metadata->count < max(slots, (size_t)2);"))
mut("c41_count_le", "C41", (H, "    return metadata->count < slots;", "    return metadata->count + 1 < slots;"))
mut("c41_quar_clear", "C41", (H, "metadata->quarantine_bitmap[bucket] &= ~(1UL << (index - bucket * U64_WIDTH));", "metadata->quarantine_bitmap[bucket] = 0;"))
mut("c41_slot_ptr", "C41", (H, "    return (char *)slab + slot * size;", "    return (char *)slab + (u16)(slot * size);"))
