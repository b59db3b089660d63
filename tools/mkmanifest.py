#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: function contracts checked on the LLVM IR of the real source, obligations discharged by z3'
NOTE = 'Unbounded in inputs and histories: every obligation generated from the current source is discharged for all states satisfying the state invariant. '
A = 'Trusted: the translation clang -O0 to IR, the instruction semantics in hmv/exec.py, z3, the kernel and libc contracts in hmv/kern.py; see DESIGN.md for the list of assumptions.'
CLAIMED = {
 'C01': 'allocate_small and deallocate_small keep the class invariant and change exactly one slot.',
 'C02': 'size classes of every allocation function, overflow, usable size.',
 'C03': 'alignment of every block, every power of two and every invalid alignment.',
 'C04': 'deallocate_small returns only for live slots and aborts for everything else in the class region.',
 'C05': 'find, insert, delete (backward shift) and growth of the table for each power of two size it can have, and every use of the table by the allocation functions.',
 'C06': 'free_sized, free_aligned_sized and sized delete against the class rule of the requested size.',
 'C07': 'canary written at allocation, checked at free and usable size.',
 'C08': 'wiping at free, write-after-free check at allocation, calloc.',
 'C09': 'random array and queue handling of freed slots.',
 'C10': 'array, queue and unmapping of freed ranges, threshold, page state.',
 'C11': 'page mappings and guard sizes of large blocks.',
 'C12': 'protection state of every slab of a class.',
 'C13': 'lists, delay array and FIFO of slabs, purge limit, malloc_trim.',
 'C14': 'realloc for every kind of old block and new size.',
 'C15': 'every failing system call on every path of the allocation functions and the mapping layer.',
 'C16': 'errno on every path of free.',
 'C17': 'ghost lock state at every access of shared state.',
 'C18': 'fork handlers over every arena and class, their registration, reseeding of generators.',
 'C19': 'reseeding, wiping, use-once and buffering of the random generator, for every buffer state; ChaCha keystream against the RFC formula for every key, nonce, counter and length.',
 'C20': 'range and exact rejection of the three uniform functions for every bound.',
 'C21': 'initialisation for every racing case, kernel address and random offset; address to class; read-only globals.',
 'C22': 'malloc_object_size and malloc_object_size_fast.',
 'C23': 'statistics counters on every path of the allocation functions, and the totals mallinfo2 and malloc_info report.',
 'C24': 'ghost seal state on every path of the API functions.',
 'C25': 'all eight forms of operator new and twelve of operator delete over the contracts of the allocation functions, with every failure and handler behaviour; the sized entry points they call.',
 'C26': 'write_full and fatal_error for every sequence of partial, interrupted and failing writes.',
 'C27': 'slot choice of get_free_slot and allocate_small.',
}
PENDING = 'check not finished yet in this revision'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
NA = {}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i, 'technique': TECH, 'level': 'proof', 'level_note': NOTE + CLAIMED[i] + ' ' + A})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
