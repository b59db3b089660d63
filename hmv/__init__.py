"""hmv: contract-based verification of hardened_malloc's real source (clang IR, z3)."""


def load():
    from . import leaf, smallunits, loopunits, apiunits, randunits, regions, sizeunits, initunits, statunits, trimunit, newunits


TRUSTED = [
    'clang 18: translation of the C sources to LLVM IR at -O0 followed by mem2reg, sroa and simplifycfg (compiler bugs at other optimisation levels are out of scope)',
    'hmv/ir.py, hmv/exec.py: parser and instruction semantics of the IR (machine arithmetic is modelled exactly, modulo 2^n; pointers are integers with a provenance base)',
    'z3 (every obligation is discharged when its negation is unsatisfiable; unknown or timeout is never counted as discharged)',
    'hmv/kern.py: contracts of mmap, munmap, mprotect, mremap, madvise, prctl, pkey_*, getrandom, write, abort, pthread_mutex_*, pthread_atfork, errno',
    'clang memory intrinsics (memset, memcpy, memmove) and bit-counting intrinsics',
]
ASSUMPTIONS = [
    'a failed mmap, mprotect, munmap or mremap call has no effect on the mappings; madvise(MADV_DONTNEED) does not fail with ENOMEM',
    'a mapping the kernel returns is page aligned, below 2^47 and disjoint from every mapping in use',
    'mutexes give mutual exclusion and order memory; the relaxed/acquire/release accesses of ro.slab_region_end are covered by the three cases of the initialisation units',
    'the representation invariant of a class, of the large table and of a generator holds when its lock is taken (each unit re-establishes it at every release: induction over lock acquisitions)',
    'counting bounds: no more than 2^23 slabs of a class have ever been used, byte totals stay below 2^60',
    'libdivide_u32_do and libdivide_u64_do divide exactly (third_party/libdivide.h is assumed)',
    'ChaCha quality: keystream bytes are treated as arbitrary values (no claim about cryptographic strength)',
    'callers obey C: they do not write outside their blocks concurrently with the allocator looking at them, except as the property under check says',
    'all configurations are not enumerated: the configurations of hmv/build.py (default, light, full, alt, alt2 and special ones) are',
]
