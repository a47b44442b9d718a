# the same program under other names
import re as _re, glob as _glob


def _files():
    return [_os.path.basename(f) for f in sorted(_glob.glob("/repo/*.c") + _glob.glob("/repo/*.h") + _glob.glob("/repo/*.cc"))]


import os as _os


def rename(name, words, fields={}):
    """words: token -> token everywhere; fields: member -> member (declaration and accesses)"""
    edits = []
    for f in _files():
        a = src(f)
        b = a
        for w, n in words.items():
            b = _re.sub(r"(?<![\w\"])%s\b(?!\")" % w, n, b)
        for w, n in fields.items():
            b = _re.sub(r"(->|\.)%s\b" % w, r"\g<1>" + n, b)
            b = _re.sub(r"(?m)^(    (?:_Atomic |struct |unsigned |const )*[\w]+ \**)%s(\[[^;]*\])?;" % w, lambda m: m.group(1) + n + (m.group(2) or "") + ";", b)
        if a != b:
            edits.append((f, a, b))
    eqv(name, *edits)


def _suffix(ws, s):
    return {w: w + s for w in ws.split()}


rename("ren_functions", _suffix("alloc_metadata set_used_slot clear_used_slot is_used_slot set_quarantine_slot clear_quarantine_slot is_quarantine_slot "
       "get_free_slot has_free_slots is_free_slab get_metadata slot_pointer write_after_free_check set_slab_canary_value set_canary check_canary "
       "allocate_small slab_size_class slab_usable_size enqueue_free_slab deallocate_small regions_quarantine_deallocate_pages regions_grow "
       "regions_insert regions_find regions_delete init_slow_path get_guard_size allocate_large allocate deallocate_large allocate_aligned "
       "alloc_aligned_simple alloc_aligned memory_map memory_unmap memory_protect_rw memory_protect_ro memory_purge memory_remap_fixed "
       "allocate_pages deallocate_pages page_align hash_page is_init init full_lock full_unlock post_fork_child get_slab get_slots get_slab_size", "_hm"))
rename("ren_generator", {"get_random_u16_uniform": "random_below16", "get_random_u64_uniform": "random_below64", "get_random_u16": "random_u16",
       "get_random_u64": "random_u64", "get_random_bytes": "random_fill", "get_random_seed": "random_seed", "random_state_init": "random_state_seed",
       "random_state_init_from_random_state": "random_state_derive", "chacha_keystream_bytes": "chacha_stream", "chacha_keysetup": "chacha_set_key",
       "chacha_ivsetup": "chacha_set_nonce"})
rename("ren_structs", {r"struct __attribute__\(\(aligned\(CACHELINE_SIZE\)\)\) size_class": "struct __attribute__((aligned(CACHELINE_SIZE))) class_state", "struct size_class": "struct class_state", "struct slab_metadata": "struct slab_info", "struct region_metadata": "struct region_info",
       "struct region_allocator": "struct large_allocator", "struct quarantine_info": "struct quarantined", "struct random_state": "struct rng_state"})
rename("ren_globals", {"thread_arena": "my_arena", "thread_arena_counter": "next_arena", "init_lock": "startup_lock", "ro": "globals_ro",
       "size_classes": "class_sizes", "size_class_slots": "class_slots", "size_class_labels": "class_labels"})
rename("ren_fields", {"slab_region_end": "slabs_end", "slab_region_start": "slabs_begin", "size_class_metadata": "classes", "canary_value": "cookie"}, {"empty_slabs": "cached_slabs", "partial_slabs": "open_slabs", "free_slabs_head": "idle_first", "free_slabs_tail": "idle_last",
       "free_slabs_quarantine": "idle_random", "empty_slabs_total": "cached_bytes", "metadata_allocated": "n_meta", "metadata_count": "n_meta_used",
       "metadata_count_unguarded": "n_since_guard", "slab_info": "meta", "class_region_start": "region_base", "quarantine_bitmap": "held_bits",
       "bitmap": "used_bits", "count": "n_used", "guard_size": "fence"})
