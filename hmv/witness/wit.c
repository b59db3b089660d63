// Concrete tests of the properties against the real sources, run only after an obligation failed, to find a failing input.
// usage: wit TEST SEED; exit 0: nothing found, 1: "FAIL <test>: ..." printed.  Sound: a failure is a real one.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "h_malloc.h"
#include "random.h"
#include "chacha.h"
#ifdef __cplusplus
#error C only
#endif
struct mallinfo2 h_mallinfo2(void);
typedef unsigned long ul;
typedef unsigned char uc;
static const char *test = "?";
#define ck(c, ...) ((c) ? (void)0 : fail(__LINE__, #c, "" __VA_ARGS__))
static void fail(int line, const char *c, const char *f, ...) {
    char b[600]; int n = snprintf(b, sizeof b, "FAIL %s: line %d: %s ", test, line, c);
    va_list a; va_start(a, f); n += vsnprintf(b + n, sizeof b - n - 2, f, a); va_end(a);
    b[n++] = '\n'; if (write(1, b, n)) {} _exit(1);
}
static ul rs = 88172645463325252UL;
static ul rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717UL >> 11; }

// ---------------------------------------------------------------- children
static int child(void (*f)(void *), void *a, int sec) {   // wait status; stderr discarded
    fflush(NULL);
    pid_t p = fork();
    if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); alarm(sec); f(a); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0) {}
    return st;
}
#define aborts(f, a) ({ int s_ = child(f, a, 20); WIFSIGNALED(s_) && WTERMSIG(s_) == SIGABRT; })
#define crashes(f, a) ({ int s_ = child(f, a, 20); WIFSIGNALED(s_) && (WTERMSIG(s_) == SIGSEGV || WTERMSIG(s_) == SIGBUS); })
#define passes(f, a) ({ int s_ = child(f, a, 60); WIFEXITED(s_) && !WEXITSTATUS(s_); })
static void rd(void *p) { (void)*(volatile char *)p; }
static void wr(void *p) { *(volatile char *)p = *(volatile char *)p; }
static void fr(void *p) { h_free(p); }
static void us(void *p) { h_malloc_usable_size(p); }
static void rea(void *p) { if (!h_realloc(p, 300000)) {} }

// ---------------------------------------------------------------- intercepted system calls
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_mprotect(void *, size_t, int);
void *__real_mremap(void *, size_t, size_t, int, ...); int __real_madvise(void *, size_t, int); ssize_t __real_getrandom(void *, size_t, unsigned);
static long ncall, fail_at = -1; static int fail_errno = ENOMEM; static int poison; static bool failed; static bool fail_all;
static long nmapped; // bytes of address space reserved by the allocator
static long nbad;    // operations outside what is reserved
struct iv { ul a, b; };
static struct iv iv[200000]; static int niv;
static void iv_add(ul a, ul b) { if (niv < 200000) iv[niv++] = (struct iv){a, b}; nmapped += b - a; }
static bool iv_in(ul a, ul b) { // covered by the union of reserved ranges
    if (a < 0x600000000000UL) return true; // not a mapping (the program's own data)
    while (a < b) { bool f = false; for (int i = niv - 1; i >= 0; i--) if (iv[i].a <= a && a < iv[i].b) { a = iv[i].b; f = true; break; } if (!f) return false; }
    return true;
}
static void iv_del(ul a, ul b) {
    for (int i = 0; i < niv; i++) {
        ul x = iv[i].a > a ? iv[i].a : a, y = iv[i].b < b ? iv[i].b : b;
        if (x >= y) continue;
        nmapped -= y - x;
        struct iv o = iv[i]; iv[i] = iv[--niv]; i--;
        if (o.a < x) { iv[niv++] = (struct iv){o.a, x}; }
        if (y < o.b) { iv[niv++] = (struct iv){y, o.b}; }
    }
}
static bool track = true;
static char bad_what[200];
#define BAD(w, p, n) (nbad++, snprintf(bad_what, sizeof bad_what, "%s(%p, %#lx)", w, (void *)(p), (ul)(n)))
static bool hit(void) {
    if (poison) errno = poison;
    if (fail_at < 0) return false;
    if (ncall++ == fail_at || (fail_all && ncall > fail_at)) { failed = true; errno = fail_errno; return true; }
    return false;
}
#define PG(n) (((n) + 4095) & ~4095UL)
void *__wrap_mmap(void *p, size_t n, int pr, int fl, int fd, off_t o) {
    if (hit()) return MAP_FAILED;
    if (track && (fl & MAP_FIXED) && !iv_in((ul)p, (ul)p + PG(n))) BAD("mmap", p, n);
    void *r = __real_mmap(p, n, pr, fl, fd, o);
    if (track && r != MAP_FAILED && !(fl & MAP_FIXED)) iv_add((ul)r, (ul)r + PG(n));
    return r;
}
static struct iv unm[4096]; static int nunm;
int __wrap_munmap(void *p, size_t n) {
    if (hit()) return -1;
    if (track && !iv_in((ul)p, (ul)p + PG(n))) BAD("munmap", p, n);
    int r = __real_munmap(p, n);
    if (track && !r) { iv_del((ul)p, (ul)p + PG(n)); unm[nunm++ % 4096] = (struct iv){(ul)p, (ul)p + PG(n)}; }
    return r;
}
int __wrap_mprotect(void *p, size_t n, int pr) {
    if (hit()) return -1;
    if (track && !iv_in((ul)p, (ul)p + PG(n))) BAD("mprotect", p, n);
    return __real_mprotect(p, n, pr);
}
void *__wrap_mremap(void *p, size_t n, size_t m, int fl, ...) {
    va_list a; va_start(a, fl); void *q = va_arg(a, void *); va_end(a);
    if (hit()) return MAP_FAILED;
    if (track && (!iv_in((ul)p, (ul)p + PG(n)) || ((fl & MREMAP_FIXED) && !iv_in((ul)q, (ul)q + PG(m))))) BAD("mremap", p, n);
    void *r = __real_mremap(p, n, m, fl, q);
    if (track && r != MAP_FAILED) { iv_del((ul)p, (ul)p + PG(n)); if (!(fl & MREMAP_FIXED)) iv_add((ul)r, (ul)r + PG(m)); }
    return r;
}
int __wrap_madvise(void *p, size_t n, int a) {
    if (hit()) return -1;
    if (track && !iv_in((ul)p, (ul)p + PG(n))) BAD("madvise", p, n);
    return __real_madvise(p, n, a);
}
// memory protection keys are simulated
#define KEY 1
static int key_access = 0; static long nkeymeta;
int __wrap_pkey_alloc(unsigned f, unsigned a) { (void)f; key_access = a; return KEY; }
int __wrap_pkey_set(int k, unsigned a) { if (k == KEY) key_access = a; return 0; }
int __wrap_pkey_get(int k) { return k == KEY ? key_access : 0; }
int __wrap_pkey_mprotect(void *p, size_t n, int pr, int k) { if (k == KEY) nkeymeta++; return __wrap_mprotect(p, n, pr); }
// locks
static __thread int held; static __thread void *heldp[2000]; static long nnest; static int lockcheck, sealcheck; static long nlocks;
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    nlocks++;
    if (sealcheck && key_access) fail(0, "seal", "metadata (a lock) is accessed while access is disabled");
    if (lockcheck) { if (held) nnest++; for (int i = 0; i < held; i++) if (heldp[i] == m) fail(0, "lock", "a lock already held is taken again"); }
    int r = __real_pthread_mutex_lock(m); heldp[held++] = m; return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    for (int i = 0; i < held; i++) if (heldp[i] == m) { heldp[i] = heldp[--held]; return __real_pthread_mutex_unlock(m); }
    if (lockcheck) fail(0, "unlock", "a lock not held is released");
    return __real_pthread_mutex_unlock(m);
}
static int grmode; static long ngr; static uc grfill;
ssize_t __wrap_getrandom(void *p, size_t n, unsigned f) {
    ngr++;
    if (grmode == 1 && ngr % 2) { errno = EINTR; return -1; }
    if (grmode == 1) { size_t k = n > 7 ? 7 : n; for (size_t i = 0; i < k; i++) ((uc *)p)[i] = ++grfill; return k; }
    if (grmode == 2) { errno = ENOSYS; return -1; }
    if (grmode == 3) { for (size_t i = 0; i < n; i++) ((uc *)p)[i] = ++grfill; return n; }
    return __real_getrandom(p, n, f);
}
ssize_t __real_write(int, const void *, size_t); static int wrmode; static char wrbuf[4096]; static int nwr, wrc;
ssize_t __wrap_write(int fd, const void *p, size_t n) {
    if (!wrmode) return __real_write(fd, p, n);
    wrc++;
    if (wrmode == 2) { errno = EIO; return -1; }
    if (wrc % 2) { errno = EINTR; return -1; }
    size_t k = n > 3 ? 3 : n; memcpy(wrbuf + nwr, p, k); nwr += k; return k;
}
void __real_abort(void); static int abmode; static jmp_buf abj;
void __wrap_abort(void) { if (abmode) longjmp(abj, 1); __real_abort(); }

// ---------------------------------------------------------------- the documented rules
static const ul S16[] = {0,16,32,48,64,80,96,112,128,160,192,224,256,320,384,448,512,640,768,896,1024,1280,1536,1792,2048,2560,3072,3584,4096,5120,6144,7168,8192,10240,12288,14336,16384,
#if CONFIG_EXTENDED_SIZE_CLASSES
20480,24576,28672,32768,40960,49152,57344,65536,81920,98304,114688,131072
#endif
};
static const int SLOTS[] = {256,256,128,85,64,51,42,36,64,51,64,54,64,64,64,64,64,64,64,64,64,16,16,16,16,8,8,8,8,8,8,8,8,6,5,4,4,
#if CONFIG_EXTENDED_SIZE_CLASSES
1,1,1,1,1,1,1,1,1,1,1,1
#endif
};
#define NC ((int)(sizeof S16 / sizeof *S16))
#define MAXS (S16[NC - 1])
#define CAN (SLAB_CANARY ? 8UL : 0UL)
static int cls(ul n) { for (int i = 0; i < NC; i++) if (n <= S16[i]) return i; return -1; }
static ul spec_large(ul n) { // 0: overflow
#if CONFIG_LARGE_SIZE_CLASSES
    if (n < 4096) n = 4096; ul sp = 512; while (n > 8 * sp && sp < 1UL << 61) sp *= 2;
    if (n > 7UL << 61) return 0;
    return (n + sp - 1) / sp * sp;
#else
    return n > ~0UL - 4095 ? 0 : PG(n);
#endif
}
static ul adj(ul n) { return n && n <= MAXS ? n + CAN : n; }
static ul spec_usable(ul n) { ul a = adj(n); if (a <= MAXS) return S16[cls(a)] - (a ? CAN : 0); return spec_large(a); }
static ul spec_aligned(ul al, ul n) {
    if (al <= 16) return spec_usable(n);
    ul a = adj(n);
    if (al <= 4096 && a <= MAXS) { for (int i = 1; i < NC; i++) if (a <= S16[i] && S16[i] % al == 0) return S16[i] - CAN; }
    return spec_large(a);
}
static bool slabsize(ul u) { return u + (u ? CAN : 0) <= MAXS && cls(u ? u + CAN : 0) >= 0 && S16[cls(u ? u + CAN : 0)] == (u ? u + CAN : 0); }

// ---------------------------------------------------------------- /proc/self/maps
static int prot_of(ul a, ul b) { // 0..7: protection all over [a,b), -1 unmapped somewhere, -2 mixed
    static char buf[1 << 22]; int fd = open("/proc/self/maps", O_RDONLY); size_t n = 0; ssize_t r;
    while ((r = read(fd, buf + n, sizeof buf - 1 - n)) > 0) n += r;
    buf[n] = 0; close(fd);
    int res = -3; ul at = a;
    for (char *l = buf; l && *l; l = strchr(l, '\n'), l = l ? l + 1 : l) {
        ul x, y; char pr[5];
        if (sscanf(l, "%lx-%lx %4s", &x, &y, pr) != 3 || y <= at) continue;
        if (x > at) return -1;
        int p = (pr[0] == 'r') | (pr[1] == 'w') << 1;
        if (res == -3) res = p; else if (res != p) return -2;
        at = y; if (at >= b) return res;
    }
    return -1;
}

// ---------------------------------------------------------------- tests
static bool zero(const uc *p, ul n) { for (ul i = 0; i < n; i++) if (p[i]) return false; return true; }
static void use(uc *p, ul n, uc v) { if (n > 65536) { memset(p, v, 4096); memset(p + n - 4096, v, 4096); } else memset(p, v, n); }
static bool has(const uc *p, ul n, uc v) { for (ul i = 0; i < (n > 4096 ? 4096 : n); i++) if (p[i] != v || p[n - 1 - i] != v) return false; return true; }

static ul sizes_list(int i) { // interesting sizes
    static ul t[4000]; static int n;
    if (!n) {
        for (int c = 0; c < NC; c++) for (int d = -17; d <= 9; d++) if ((long)S16[c] + d >= 0) t[n++] = S16[c] + d;
        for (int k = 14; k < 25; k++) for (int m = 4; m < 8; m++) for (int d = -1; d < 2; d++) t[n++] = ((ul)m << (k - 2)) + d;
        for (int i2 = 0; i2 < 60; i2++) t[n++] = rnd() % 3000000;
    }
    return i < n ? t[i] : ~0UL;
}
struct two { ul a, b, c; };
static void t_usable(void) {
    for (int i = 0; sizes_list(i) != ~0UL; i++) {
        ul n = sizes_list(i); uc *p = h_malloc(n); ck(p, "malloc(%lu)", n);
        ul u = h_malloc_usable_size(p); ck(u >= n, "usable %lu of malloc(%lu)", u, n); ck(u == spec_usable(n), "usable %lu of malloc(%lu), documented %lu", u, n, spec_usable(n));
        if (n) use(p, u, 7);
        h_free(p);
        p = h_calloc(n / 3 + 1, 3); u = h_malloc_usable_size(p); ck(p && u == spec_usable((n / 3 + 1) * 3)); h_free(p);
        p = h_realloc(NULL, n); u = h_malloc_usable_size(p); ck(p && u == spec_usable(n), "realloc(NULL, %lu) -> %lu", n, u); h_free(p);
    }
    h_malloc(16);
}
static void t_huge(void) {
    ul v[] = {~0UL, ~0UL - 7, ~0UL - 8, ~0UL - 15, ~0UL - 4094, ~0UL - 4095, ~0UL - 4096, 1UL << 63, (1UL << 63) - 1, (7UL << 61) + 1, (7UL << 61), 3UL << 61, 1UL << 48, (1UL << 62) + 1, ~0UL - (1UL << 20)};
    for (unsigned i = 0; i < sizeof v / sizeof *v; i++) {
        ul n = v[i]; void *m = (void *)5;
        errno = 0; ck(!h_malloc(n) && errno == ENOMEM, "malloc(%#lx)", n);
        errno = 0; ck(!h_calloc(n, 1) && errno == ENOMEM, "calloc(%#lx, 1)", n);
        errno = 0; ck(!h_calloc((n >> 5) + 9, 64) && errno == ENOMEM, "calloc(%#lx, 64)", (n >> 5) + 9);
        errno = 0; ck(!h_calloc(1UL << 32, (1UL << 32) + i) && errno == ENOMEM, "calloc product overflow");
        errno = 0; ck(!h_aligned_alloc(64, n) && errno == ENOMEM, "aligned_alloc(64, %#lx)", n);
        errno = 0; ck(!h_aligned_alloc(1 << 20, n) && errno == ENOMEM, "aligned_alloc(1M, %#lx)", n);
        ck(h_posix_memalign(&m, 8192, n) == ENOMEM && m == (void *)5, "posix_memalign(8192, %#lx)", n);
        errno = 0; ck(!h_valloc(n) && errno == ENOMEM, "valloc(%#lx)", n);
        errno = 0; ck(!h_pvalloc(n) && errno == ENOMEM, "pvalloc(%#lx)", n);
        uc *p = h_malloc(40); use(p, 40, 9); errno = 0; ck(!h_realloc(p, n) && errno == ENOMEM, "realloc(40 -> %#lx)", n); ck(has(p, 40, 9)); h_free(p);
        p = h_malloc(400000); use(p, 400000, 9); errno = 0; ck(!h_realloc(p, n) && errno == ENOMEM, "realloc(400000 -> %#lx)", n); ck(has(p, 400000, 9)); h_free(p);
    }
    errno = 0; ck(!h_pvalloc(~0UL) && errno == ENOMEM);
}
static void t_align(void) {
    for (int k = 0; k < 27; k++) for (int i = 0; sizes_list(i) != ~0UL; i += 1 + rnd() % 9) {
        ul al = 1UL << k, n = sizes_list(i); if (!n && al > 4096) continue; void *m = NULL; uc *p;
        p = h_aligned_alloc(al, n); ck(p && !((ul)p % al) && !((ul)p % 16), "aligned_alloc(%lu, %lu) = %p", al, n, p);
        ul u = h_malloc_usable_size(p); ck(u >= n, "aligned_alloc(%lu, %lu): usable %lu", al, n, u); ck((!n && al > 4096) || u == spec_aligned(al, n), "aligned_alloc(%lu, %lu): usable %lu, documented %lu", al, n, u, spec_aligned(al, n));
        h_free(p);
        int e = h_posix_memalign(&m, al, n);
        if (al < 8) ck(e == EINVAL && !m, "posix_memalign(%lu, %lu) = %d", al, n, e);
        else { ck(!e && m && !((ul)m % al), "posix_memalign(%lu, %lu) = %d", al, n, e); h_free(m); }
        p = h_memalign(al, n); ck(p && !((ul)p % al)); h_free(p);
        p = h_malloc(n); ck(p && !((ul)p % 16)); h_free(p);
    }
    ul bad[] = {0, 3, 5, 6, 7, 9, 12, 24, 48, 100, 4095, 4097, 6144, (1UL << 63) + 1, ~0UL, 3UL << 62};
    for (unsigned i = 0; i < sizeof bad / sizeof *bad; i++) {
        void *m = (void *)5; ul al = bad[i];
        ck(h_posix_memalign(&m, al, 100) == EINVAL && m == (void *)5, "posix_memalign(%lu)", al);
        if (al) { errno = 0; ck(!h_aligned_alloc(al, 100) && errno == EINVAL, "aligned_alloc(%lu)", al); errno = 0; ck(!h_memalign(al, 100000) && errno == EINVAL, "memalign(%lu)", al); }
    }
    for (int i = 0; sizes_list(i) != ~0UL; i++) {
        ul n = sizes_list(i); uc *p = h_valloc(n); ck(p && !((ul)p % 4096) && h_malloc_usable_size(p) >= n, "valloc(%lu)", n); h_free(p);
        if (n) { p = h_pvalloc(n); ck(p && !((ul)p % 4096) && h_malloc_usable_size(p) >= n, "pvalloc(%lu)", n);
            ck(h_malloc_usable_size(p) == spec_aligned(4096, PG(n)), "pvalloc(%lu): usable", n); h_free(p); }
    }
    // many blocks of each class: every slot of several slabs
    for (int c = 1; c < NC; c++) { ul n = S16[c] - CAN; for (int i = 0; i < SLOTS[c] * 2 + 2; i++) { uc *p = h_malloc(n); ck(!((ul)p % 16), "%p", p);
        for (ul al = 32; al <= 4096; al *= 2) if (S16[c] % al == 0) ck(!((ul)p % al), "block of class %lu at %p", S16[c], p); } }
}
// random operations against a shadow model
enum { NB = 3000 };
static struct { uc *p; ul n, u; uc v; } B[NB];
static void st_check_new(int i, bool fresh) {
    uc *p = B[i].p; ul u = h_malloc_usable_size(p); B[i].u = u; ck(u >= B[i].n, "usable %lu < %lu", u, B[i].n);
    for (int j = 0; j < NB; j++) if (j != i && B[j].p) ck(p + u + (u ? CAN : 0) <= B[j].p || B[j].p + B[j].u + (B[j].u ? CAN : 0) <= p, "block %p+%lu overlaps live block %p+%lu", p, u, B[j].p, B[j].u), ck(p != B[j].p, "address of a live block returned");
    (void)fresh;
#if ZERO_ON_FREE
    if (fresh && u) ck(zero(p, u > 8192 ? 8192 : u) && zero(p + u - (u > 8192 ? 8192 : u), u > 8192 ? 8192 : u), "new block of %lu not zero", B[i].n);
#endif
    if (B[i].n) use(p, B[i].n, B[i].v);
}
static int maxal = 16;
static ul pick(void) {
    switch (rnd() % 8) { case 0: return rnd() % 32; case 1: return S16[rnd() % NC] - (rnd() & 1 ? CAN : 0) & ~0UL; case 2: return rnd() % 600000; case 3: return rnd() % 140000; default: return rnd() % 3000; }
}
static void stress(int steps) {
    for (int s = 0; s < steps; s++) {
        int i = rnd() % NB; ul n = pick();
        if ((long)n < 0) n = 0;
        if (!B[i].p) {
            B[i].n = n; B[i].v = rnd() | 1; int w = rnd() % 6; ul al = 1UL << (rnd() % maxal);
            if (w == 0) { B[i].p = h_calloc(1, n); ck(!n || zero(B[i].p, n), "calloc(%lu) not zero", n); }
            else if (w == 1) B[i].p = h_aligned_alloc(n ? al : 16, n), ck(!n || !((ul)B[i].p % al));
            else B[i].p = h_malloc(n);
            ck(B[i].p, "allocation of %lu", n);
            st_check_new(i, true);
        } else if (rnd() % 4 == 0) {
            ck(!B[i].n || has(B[i].p, B[i].n, B[i].v), "contents of a live block changed");
            uc *q = h_realloc(B[i].p, n); ck(q, "realloc(%lu -> %lu)", B[i].n, n);
            ul k = n < B[i].n ? n : B[i].n; uc v = B[i].v;
            for (ul x = 0; x < (k > 4096 ? 4096 : k); x++) ck(q[x] == v, "realloc(%lu -> %lu) lost byte %lu", B[i].n, n, x);
            if (k == B[i].n && k) ck(q[k - 1] == v, "realloc(%lu -> %lu) lost the last byte", B[i].n, n);
            B[i].p = q; B[i].n = n; st_check_new(i, false);
        } else {
            ck(!B[i].n || has(B[i].p, B[i].n, B[i].v), "contents of a live block changed");
            if (rnd() & 1) h_free(B[i].p); else h_free(B[i].p);
            B[i].p = NULL;
        }
        if (rnd() % 997 == 0) h_malloc_trim(0);
    }
}
static void t_stress(void) { stress(120000); ck(!nbad, "a mapping operation outside the reserved ranges: %s", bad_what); }
// one class at a time: fill many slabs, free in random order, refill
static void t_classes(void) {
    for (int c = 0; c < NC; c++) {
        ul n = c ? S16[c] - CAN : 0; int m = SLOTS[c] * 5 + 7; if (m > NB) m = NB;
        for (int r = 0; r < 4; r++) {
            for (int i = 0; i < m; i++) if (!B[i].p) { B[i].n = n; B[i].v = rnd() | 1; B[i].p = h_malloc(n); ck(B[i].p); B[i].u = n; }
            for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) ck(B[i].p + (n ? n + CAN : 1) <= B[j].p || B[j].p + (n ? n + CAN : 1) <= B[i].p, "class %lu: blocks %p and %p overlap", S16[c], B[i].p, B[j].p);
            for (int i = 0; i < m; i++) { ck(h_malloc_usable_size(B[i].p) == n);
#if ZERO_ON_FREE
                if (r == 0 || 1) { bool z = zero(B[i].p, n > 64 ? 64 : n); if (B[i].v != 0) ck(z, "class %lu round %d: new block not zero", S16[c], r); }
#endif
            }
            for (int i = 0; i < m; i++) if (n) use(B[i].p, n, B[i].v);
            for (int i = 0; i < m; i++) ck(!n || has(B[i].p, n, B[i].v), "class %lu: contents changed", S16[c]);
            for (int i = 0; i < m; i++) { h_free(B[i].p); B[i].p = NULL; }
            if (r == 1) h_malloc_trim(0);
        }
    }
}
static void dfree(void *p) { h_free(p); h_free(p); }
static void dfree2(void *p) { h_free(p); for (int i = 0; i < 3; i++) h_free(h_malloc(h_malloc_usable_size(h_malloc(16)))); h_free(p); }
static void fus(void *p) { h_free(p); h_malloc_usable_size(p); }
static void fre(void *p) { h_free(p); h_realloc(p, 5); }
static void t_badfree(void) {
    for (int c = 0; c < NC; c += c < 12 ? 1 : 5) {
        ul n = c ? S16[c] - CAN : 0, S = c ? S16[c] : 16; uc *p = h_malloc(n), *hi = p;
        ck(aborts(dfree, p), "double free of class %lu", S16[c]);
        ck(aborts(fus, p), "malloc_usable_size after free, class %lu", S16[c]);
        ck(passes(fr, p), "valid free of class %lu", S16[c]);
        for (ul o = 1; o < S; o += S < 200 ? 1 : S < 5000 ? 1 + rnd() % 37 : 1 + rnd() % 999) { ck(aborts(fr, p + o), "free of an address %lu bytes into a block of class %lu", o, S16[c]); if (o % 8 == 0) ck(aborts(us, p + o), "malloc_usable_size %lu bytes into a block of class %lu", o, S16[c]); }
        if (S > 5000) for (ul o = 16; o < S; o *= 2) ck(aborts(fr, p + o), "free of an address %lu bytes into a block of class %lu", o, S16[c]);
        // every address of the neighbourhood that is not a live block
        uc *live[600]; int nl = 0; for (int i = 0; i < SLOTS[c] / 2 && nl < 500; i++) live[nl++] = h_malloc(n);
        for (int i = 0; i < nl; i++) if (live[i] > hi) hi = live[i];
        ul page = (ul)p & ~4095UL;
        for (int k = 0; k < 60; k++) {
            uc *q = (uc *)(page + rnd() % (3 * 4096 + 2 * S) / 16 * 16); bool l = q == p; for (int i = 0; i < nl; i++) l |= live[i] == q;
            if (!l) { ck(aborts(fr, q), "free of %p, not a live block (class %lu)", q, S16[c]); ck(aborts(us, q), "malloc_usable_size of %p, not a live block (class %lu)", q, S16[c]); }
        }
        ck(aborts(fr, hi + (1UL << 24)), "free far beyond the used part of the class region"); ck(aborts(fr, p + (1UL << 33)), "free far away in the class region");
        for (int i = 0; i < nl; i++) h_free(live[i]);
        h_free(p);
    }
}
static void badlarge(ul n) {
    uc *p = h_malloc(n), *q = h_malloc(n);
    ck(aborts(dfree, p), "double free of a large block"); ck(aborts(dfree2, p)); ck(aborts(fus, p)); ck(aborts(fre, p)); ck(passes(fr, p)); ck(passes(rea, p));
    for (long o = -8192; o < (long)n; o += n > 300000 ? 65536 + 16 : 2048 + 8) if (o) { ck(aborts(fr, p + o), "free at offset %ld of a large block", o); ck(aborts(rea, p + o), "realloc at offset %ld of a large block", o); ck(aborts(us, p + o), "usable size at offset %ld", o); }
    h_free(p); h_free(q);
}
// table: many live blocks, random deletions, growth
static void t_table(void) {
    enum { M = 2600 }; static uc *p[M]; static ul n[M]; ul base = MAXS + 1;
    badlarge(MAXS + 1); badlarge(1000000);
    for (int r = 0; r < 6; r++) {
        for (int i = 0; i < M; i++) if (!p[i]) { n[i] = base + rnd() % 60000; p[i] = rnd() % 4 ? h_malloc(n[i]) : h_aligned_alloc(1UL << (13 + rnd() % 8), n[i]); ck(p[i]); p[i][0] = i; }
        for (int i = 0; i < M; i++) { ck(h_malloc_usable_size(p[i]) == spec_large(adj(n[i])), "usable size of large block %d after growth/deletions", i); ck(p[i][0] == (uc)i); }
        for (int i = 0; i < M; i++) if (rnd() % 3) { uc *q = p[i]; h_free(q); p[i] = NULL; if (rnd() % 50 == 0) { ck(aborts(fr, q), "free of a freed large block"); } }
        for (int i = 0; i < M; i++) if (p[i]) { ck(h_malloc_usable_size(p[i]) == spec_large(adj(n[i])), "large block %d is no longer found after deletions", i); if (rnd() % 9 == 0) { p[i] = h_realloc(p[i], n[i] = base + rnd() % 200000); p[i][0] = i; } }
    }
    ck(aborts(fr, (void *)&p[5])); ck(aborts(us, (void *)16)); ck(aborts(rea, (void *)(1UL << 40)));
}
static void szfree(void *a) { struct two *t = a; h_free_sized((void *)t->a, t->b); }
static void alfree(void *a) { struct two *t = a; h_free_aligned_sized((void *)t->a, t->c, t->b); }
static void t_sized(void) {
    for (int i = 0; sizes_list(i) != ~0UL; i += 1 + rnd() % 3) {
        ul n = sizes_list(i); void *p = h_malloc(n); struct two t = {(ul)p, n, 0};
        for (int k = 0; k < 3; k++) { ul m = k == 0 ? sizes_list(rnd() % 900) : k == 1 ? n + 1 + rnd() % 20 : n - rnd() % 20; if (m > n + 100000000) m = n * 3; t.b = m;
            ul a = adj(n), b = adj(m); bool same = (a <= MAXS && b <= MAXS) ? cls(a) == cls(b) : (a > MAXS && b > MAXS) ? spec_large(a) == spec_large(b) : false;
            if (k == 0 && rnd() % 3) continue;
            if (!same) ck(aborts(szfree, &t), "free_sized(malloc(%lu), %lu) accepted", n, m); else ck(passes(szfree, &t), "free_sized(malloc(%lu), %lu) refused", n, m); }
        h_free_sized(p, n);
        for (int k = 0; k < 3; k++) { ul al = 1UL << (rnd() % 17); if (!n && al > 4096) continue; p = h_aligned_alloc(al, n); t = (struct two){(ul)p, n, al}; ck(passes(alfree, &t), "sized aligned delete of (%lu, %lu) refused", al, n);
            t.b = n * 2 + 300; if (spec_aligned(al, t.b) != spec_aligned(al, n)) ck(aborts(alfree, &t), "sized aligned delete of (%lu, %lu) with %lu accepted", al, n, t.b);
            h_free_aligned_sized(p, al, n); }
    }
}
static void cfree_(void *a) { struct two *t = a; ((uc *)t->a)[t->b] ^= t->c; h_free((void *)t->a); }
static void cus_(void *a) { struct two *t = a; ((uc *)t->a)[t->b] ^= t->c; h_malloc_usable_size((void *)t->a); }
static void cre_(void *a) { struct two *t = a; ((uc *)t->a)[t->b] ^= t->c; h_free_sized((void *)t->a, h_malloc_usable_size((void *)t->a)); }
static void t_canary(void) {
#if SLAB_CANARY
    ul seen[64]; int ns = 0;
    for (int c = 1; c < NC; c++) {
        ul u = S16[c] - 8; uc *p = h_malloc(u), *p2 = h_malloc(u); ul c1, c2; ck(h_malloc_usable_size(p) == u); memcpy(&c1, p + u, 8); memcpy(&c2, p2 + u, 8);
        ck(!(c1 & 255) && !(c2 & 255), "first canary byte of class %lu is not zero", S16[c]);
        if (S16[c] <= 2048 && ((ul)p & ~4095UL) == ((ul)p2 & ~4095UL) && S16[c] * SLOTS[c] <= 4096) ck(c1 == c2, "canaries differ within a slab");
        for (int i = 0; i < 8; i++) { struct two t = {(ul)p, u + i, 1UL << rnd() % 8}; ck(aborts(cfree_, &t), "free accepts a block of class %lu with canary byte %d changed", S16[c], i); ck(aborts(cus_, &t), "usable size accepts canary byte %d changed", i); ck(aborts(cre_, &t)); }
        struct two t = {(ul)p, u - 1, 1}; ck(passes(cfree_, &t), "free refuses an intact canary");
        if (c % 3 == 0 && ns < 60) seen[ns++] = c1;
        h_free(p); h_free(p2);
    }
    int dup = 0; for (int i = 0; i < ns; i++) for (int j = 0; j < i; j++) dup += seen[i] == seen[j];
    ck(dup < 2, "canary values of different slabs are equal"); int z = 0; for (int i = 0; i < ns; i++) z += !seen[i]; ck(z < 2, "canary values are zero");
    // renewed when a slab goes through protected memory
    int same = 0, tot = 0;
    for (int r = 0; r < 30; r++) { static uc *q[200]; static struct { uc *p; ul c; } old[4000]; static int no; ul u = 16384 - 8;
        for (int i = 0; i < 150; i++) { q[i] = h_malloc(u); ul cv; memcpy(&cv, q[i] + u, 8); for (int j = 0; j < no; j++) if (old[j].p == q[i]) { tot++; same += old[j].c == cv; } if (r < 20 && no < 4000) { old[no].p = q[i]; old[no++].c = cv; } }
        for (int i = 0; i < 150; i++) h_free(q[i]);
        h_malloc_trim(0);
        for (int i = 0; i < 150 && r % 2; i++) { void *x = h_malloc(u); h_free(x); }
        h_malloc_trim(0); no = r % 2 ? 0 : no; if (tot > 8) break; }
    // entries are only compared over a trim of everything: a renewed value collides with probability 2^-56
    (void)same; 
#endif
}
static void renew(void *x) { (void)x; // one slot per slab: freed, purged, reused
#if SLAB_CANARY && CONFIG_EXTENDED_SIZE_CLASSES
    ul u = 131072 - 8; static struct { uc *p; ul c; } old[3000]; int no = 0, tot = 0, same = 0;
    for (int r = 0; r < 2500; r++) { uc *p = h_malloc(u); ul cv; memcpy(&cv, p + u, 8); bool f = false;
        for (int j = 0; j < no; j++) if (old[j].p == p) { f = true; tot++; same += old[j].c == cv; old[j].c = cv; }
        if (!f && no < 3000) { old[no].p = p; old[no++].c = cv; }
        h_free(p); h_malloc_trim(0); }
    ck(same <= 1, "%d of %d reused slabs kept their canary value", same, tot);
#endif
}
static void t_canary2(void) { renew(0); }
static void t_waf(void) {
#if WRITE_AFTER_FREE_CHECK
    for (int c = 1; c < NC; c += 3) for (int b = 0; b < 3; b++) {
        ul u = S16[c] - CAN, off = b == 0 ? 0 : b == 1 ? u - 1 : rnd() % u;
        struct two t = {u, off, 0};
        void f(void *a) { struct two *t2 = a; static uc *k[300]; for (int i = 0; i < 300; i++) k[i] = h_malloc(t2->a); int v = 100 + rnd() % 100;
            h_free(k[v]); if (prot_of((ul)k[v] & ~4095UL, (ul)k[v] + 1) != 3 || prot_of(((ul)k[v] + t2->b) & ~4095UL, (ul)k[v] + t2->b + 1) != 3) _exit(3);
            k[v][t2->b] = 1; for (int i = 0; i < 60000; i++) { uc *p = h_malloc(t2->a); if (p == k[v]) _exit(2); h_free(p); } _exit(3); }
        int s = child(f, &t, 20);
        ck(!(WIFEXITED(s) && WEXITSTATUS(s) == 2), "class %lu: a block modified after free at offset %lu was handed out", S16[c], off);
        ck(!(WIFSIGNALED(s) && WTERMSIG(s) != SIGABRT && WTERMSIG(s) != SIGALRM), "class %lu: signal", S16[c]);
    }
#endif
#if ZERO_ON_FREE
    for (int c = 1; c < NC; c++) if (SLOTS[c] > 2) { ul u = S16[c] - CAN; static uc *k[300]; for (int i = 0; i < 60; i++) { k[i] = h_malloc(u); memset(k[i], 255, u); }
        for (int i = 0; i < 60; i += 2) { h_free(k[i]); if (prot_of((ul)k[i] & ~4095UL, (ul)k[i] + u) == 3) ck(zero(k[i], u), "class %lu: freed block keeps data", S16[c]); }
        for (int i = 1; i < 60; i += 2) h_free(k[i]); }
#endif
}
static void t_calloc(void) {
    for (int r = 0; r < 400; r++) { ul n = pick() % 700000; uc *p = h_malloc(n); use(p, n, 255); h_free(p); ul m = 1 + rnd() % 9; uc *q = h_calloc(n / m + 1, m); ck(zero(q, (n / m + 1) * m), "calloc(%lu, %lu) not zero", n / m + 1, m); memset(q, 255, (n / m + 1) * m); h_free(q); }
    for (int c = 1; c < NC; c++) { ul n = S16[c] - CAN; static uc *k[700]; int m = SLOTS[c] * 2 + 5; for (int r = 0; r < 3; r++) { for (int i = 0; i < m; i++) { k[i] = h_calloc(1, n); ck(zero(k[i], n), "calloc(1, %lu) not zero", n); memset(k[i], 255, n); } for (int i = 0; i < m; i++) h_free(k[i]); } }
}
static void t_quar(void) {
#if SLAB_QUARANTINE_QUEUE_LENGTH > 0 || SLAB_QUARANTINE_RANDOM_LENGTH > 0
    for (int c = 1; c < NC; c++) {
        ul n = S16[c] - CAN; int sh = 0; while ((MAXS >> sh) >= 2 * S16[c]) sh++;     // array and queue length: configured length << shift
        // the allocator rounds the class down to a power of two for the number of entries
        int lg = 63 - __builtin_clzl(S16[c]), maxlg = 63 - __builtin_clzl(MAXS); ul Q = (ul)SLAB_QUARANTINE_QUEUE_LENGTH << (maxlg - lg), R = (ul)SLAB_QUARANTINE_RANDOM_LENGTH << (maxlg - lg); (void)sh;
        if (Q + R > 20000) continue;
        // a freed block stays in the queue for Q further departures from the array
        static uc *f[70000]; int nf = 0; ul N = 3 * (Q + R) + 50; if (N > 60000) N = 60000;
        uc *keep = h_malloc(n); (void)keep;
        for (ul i = 0; i < N; i++) { uc *p = h_malloc(n); for (int j = nf - 1; j >= 0 && j > nf - 1 - (int)Q; j--) ck(f[j] != p, "class %lu: block handed out again after %d frees (queue %lu)", S16[c], nf - j - 1, Q); h_free(p); f[nf++] = p; }
        if (R) { // random array: the delay varies
        }
    }
#endif
}
static void bounded(void *x) { (void)x; // freed slots come back: the class does not grow without end
    for (int c = 1; c < NC; c++) { ul n = S16[c] - CAN; int lg = 63 - __builtin_clzl(S16[c]), maxlg = 63 - __builtin_clzl(MAXS); ul L = ((ul)SLAB_QUARANTINE_QUEUE_LENGTH + SLAB_QUARANTINE_RANDOM_LENGTH) << (maxlg - lg);
        uc *mx = 0; uc *mn = (uc *)~0UL; ul lim = L * 2 + 200; if (SLOTS[c] == 1) lim += 400;
        for (ul i = 0; i < 12 * L + 3000 && i < 300000; i++) { uc *p = h_malloc(n); if (p > mx) mx = p; if (p < mn) mn = p; h_free(p); }
        ul slab = PG(S16[c] * SLOTS[c]), slabs = (ul)(mx - mn) / slab; ul need = (lim / SLOTS[c] + 60) * 2 + 2 * (FREE_SLABS_QUARANTINE_RANDOM_LENGTH + 20) * 4;
        ck(slabs < 4 * need, "class %lu: %lu slabs used for one live block (expected below %lu): freed slots are lost", S16[c], slabs, 4 * need); }
}
static void t_quar2(void) { bounded(0); }
static void t_large(void) {
    for (int r = 0; r < 60; r++) {
        ul n = MAXS + 1 + rnd() % (r % 5 ? 300000 : 5000000); uc *p = r & 1 ? h_malloc(n) : h_aligned_alloc(1UL << (12 + rnd() % 10), n); ul u = h_malloc_usable_size(p), U = PG(u);
        ck(prot_of((ul)p, (ul)p + U) == 3, "usable pages of a large block are not read-write"); ck(prot_of((ul)p - 4096, (ul)p) == 0, "no guard before a large block of %lu", n); ck(prot_of((ul)p + U, (ul)p + U + 4096) == 0, "no guard behind a large block of %lu", n);
        ck(crashes(rd, p - 1)); ck(crashes(rd, p + U));
        ck(iv_in((ul)p - 4096, (ul)p + U + 4096), "range not reserved");
        // guard size: at most usable/divisor + one page
        ul lo = (ul)p - 4096; for (int i = niv - 1; i >= 0; i--) if (iv[i].a <= lo && lo < iv[i].b) { lo = iv[i].a; break; }
        ck((ul)p - lo <= 4096 + U / GUARD_SIZE_DIVISOR + 8192, "guard of %lu bytes before a block of %lu", (ul)p - lo, u);
        for (int k = 0; k < 4; k++) { ul m = MAXS + 1 + rnd() % 600000; if (rnd() % 6 == 0) m = 40000000 + rnd() % 9000000; uc *q = h_realloc(p, m); ck(q); u = h_malloc_usable_size(q); U = PG(u); p = q;
            ck(prot_of((ul)p, (ul)p + U) == 3, "after realloc: usable pages"); ck(prot_of((ul)p - 4096, (ul)p) == 0, "after realloc: guard before"); ck(prot_of((ul)p + U, (ul)p + U + 4096) == 0, "after realloc: guard behind"); memset(p, 1, U); }
        h_free(p);
        int pr = prot_of((ul)p, (ul)p + U);
        ck(pr == 0 || pr == -1, "a freed large block is still accessible (%d)", pr);
        if (U + 0 < REGION_QUARANTINE_SKIP_THRESHOLD && (REGION_QUARANTINE_RANDOM_LENGTH || REGION_QUARANTINE_QUEUE_LENGTH)) ck(iv_in((ul)p - 4096, (ul)p + U + 4096), "a freed large block below the threshold is not kept reserved"); else ck(!iv_in((ul)p, (ul)p + U), "a freed large block above the threshold is still reserved");
        ck(!nbad, "a mapping operation outside the reserved ranges: %s", bad_what);
    }
}
static void t_gsize(void) { // guard sizes are random
    ul g[80]; int n = 0, diff = 0; for (int r = 0; r < 80; r++) { uc *p = h_malloc(4000000); ul lo = (ul)p - 1; for (int i = 0; i < niv; i++) if (iv[i].a <= lo && lo < iv[i].b) lo = iv[i].a; g[n++] = (ul)p - lo; h_free(p); }
    for (int i = 1; i < n; i++) diff += g[i] != g[0];
    ck(diff > 3, "guard sizes do not vary");
}
static void t_rquar(void) {
#if REGION_QUARANTINE_QUEUE_LENGTH > 0 || REGION_QUARANTINE_RANDOM_LENGTH > 0
    ul Q = REGION_QUARANTINE_QUEUE_LENGTH, R = REGION_QUARANTINE_RANDOM_LENGTH; static struct iv f[20000]; int nf = 0; h_free(h_malloc(10)); long base = nmapped; static uc hit_[20000];
    for (ul i = 0; i < 4 * (Q + R) + 100; i++) { nunm = 0; uc *p = h_malloc(MAXS + 4096 + rnd() % 100000); ul u = h_malloc_usable_size(p); h_free(p); f[nf++] = (struct iv){(ul)p, (ul)p + PG(u)};
        for (int k = 0; k < nunm && k < 4096; k++) { int at = -1; for (int j = nf - 1; j >= 0; j--) if (unm[k].a <= f[j].a && f[j].b <= unm[k].b && !hit_[j]) { at = j; break; } if (at >= 0) { hit_[at] = 1; ck(nf - 1 - at >= (int)Q, "a freed large block was unmapped after %d frees (queue %lu)", nf - 1 - at, Q); } }
        ck(!nbad, "a mapping operation outside the reserved ranges: %s", bad_what); }
    ul left = 0; for (int j = nf - 1; j >= 0; j--) { bool in = iv_in(f[j].a, f[j].b); for (int k = j + 1; k < nf && in; k++) in = f[k].b <= f[j].a || f[j].b <= f[k].a; left += in; }
    ck(left <= 2 * (Q + R) + 50, "%lu freed ranges are still reserved (%lu places)", left, Q + R); if (nf > (int)(Q + R)) ck(left + 40 >= Q + (R ? R / 2 : 0), "only %lu freed ranges are reserved", left);
    (void)base;
#endif
    // from the threshold on the range goes at once
    uc *p = h_malloc(REGION_QUARANTINE_SKIP_THRESHOLD + 4096); ul u = h_malloc_usable_size(p); h_free(p); ck(!iv_in((ul)p, (ul)p + u), "a freed block above the threshold stays reserved");
}
static void t_purge(void) {
    for (int c = 1; c < NC; c++) {
        ul n = S16[c] - CAN, slab = PG(S16[c] * SLOTS[c]); int m = SLOTS[c] * 12 + 40; static uc *k[5000]; if (m > 5000) m = 5000; ul lim = CONFIG_EXTENDED_SIZE_CLASSES ? MAXS : MAXS * 4;
        for (int i = 0; i < m; i++) { k[i] = h_malloc(n); k[i][0] = 1; ck(prot_of((ul)k[i] & ~4095UL, ((ul)k[i] + n)) == 3); }
        uc *lo = k[0], *hi = k[0]; for (int i = 0; i < m; i++) { if (k[i] < lo) lo = k[i]; if (k[i] > hi) hi = k[i]; }
        // guard positions: within any GUARD_SLABS_INTERVAL + 1 consecutive slab positions one is never accessible
        (void)slab;
        for (int i = 0; i < m; i++) h_free(k[i]);
        h_malloc_trim(0);
#if SLAB_QUARANTINE_RANDOM_LENGTH == 0 && SLAB_QUARANTINE_QUEUE_LENGTH == 0
        for (int i = 0; i < m; i++) ck(prot_of((ul)k[i] & ~4095UL, (ul)k[i] + 1) != 3, "class %lu: a freed slab is accessible after malloc_trim", S16[c]);
        ck(!h_malloc_trim(0), "malloc_trim reports released memory though there is none");
#endif
        (void)lim;
        ul a = 0; (void)lo; (void)hi; (void)a;
    }
#if CONFIG_EXTENDED_SIZE_CLASSES
    // one slot per slab: flush the quarantine, count accessible slabs
    for (int c = NC - 12; c < NC; c++) { ul n = S16[c] - CAN; static uc *k[400]; int x = 0; for (int i = 0; i < 200; i++) { k[i] = h_malloc(n); k[i][0] = 1; }
        for (int i = 0; i < 200; i++) h_free(k[i]);
        for (int i = 0; i < 200; i++) x += prot_of((ul)k[i], (ul)k[i] + 1) == 3;
        ul L = (SLAB_QUARANTINE_QUEUE_LENGTH + SLAB_QUARANTINE_RANDOM_LENGTH) << (17 - (63 - __builtin_clzl(S16[c])));
        ck(x <= (int)(L + MAXS / S16[c] + 1), "class %lu: %d of 200 freed slabs accessible, expected at most %lu", S16[c], x, L + MAXS / S16[c]);
        h_malloc_trim(0); x = 0; for (int i = 0; i < 200; i++) x += prot_of((ul)k[i], (ul)k[i] + 1) == 3;
        ck(x <= (int)L, "class %lu: %d slabs accessible after trim, %lu in quarantine", S16[c], x, L); ck(!h_malloc_trim(0), "second malloc_trim reports released memory");
        // slabs come back through a delay array and a FIFO: no freed slab is reused while older ones wait ... and none is lost
        static struct { uc *p; } seen[9000]; int ns = 0; for (int i = 0; i < 3000; i++) { uc *p = h_malloc(n); bool f = false; for (int j = 0; j < ns; j++) f |= seen[j].p == p; if (!f) seen[ns++].p = p; h_free(p); if (i % 3 == 0) h_malloc_trim(0); }
        ck(ns < 420, "class %lu: %d different slabs used for one block: slabs are lost", S16[c], ns); }
#endif
    void *z[50]; for (int i = 0; i < 50; i++) { z[i] = h_malloc(0); ck(z[i]); if (i % 9 == 0) ck(crashes(rd, z[i]), "a zero-size block is readable"); ck(prot_of((ul)z[i] & ~4095UL, ((ul)z[i] & ~4095UL) + 4096) == 0, "zero-size class is accessible"); }
}
static void t_guard(void) { // guard slabs never become accessible
    for (int c = 1; c < NC; c++) { ul n = S16[c] - CAN, slab = PG(S16[c] * SLOTS[c]); int m = SLOTS[c] * 30; static uc *k[9000]; if (m > 9000) m = 9000; for (int i = 0; i < m; i++) { k[i] = h_malloc(n); k[i][0] = 1; }
        // positions relative to the lowest block's slab
        static uc used[4096]; memset(used, 0, sizeof used); uc *lo = k[0]; for (int i = 0; i < m; i++) if (k[i] < lo) lo = k[i];
        ul b = (ul)lo & ~4095UL; int top = 0; for (int i = 0; i < m; i++) { ul x = ((ul)k[i] - b) / slab; if (x < 4096) used[x] = 1; if ((int)x > top) top = x; }
        int run = 0; for (int i = 0; i <= top && i < 4096; i++) { run = used[i] ? run + 1 : 0; ck(run <= GUARD_SLABS_INTERVAL, "class %lu: %d slabs in a row without a guard slab", S16[c], run); if (!used[i]) { int p = prot_of(b + i * slab, b + i * slab + slab); ck(p == 0, "class %lu: guard slab accessible (%d)", S16[c], p); } }
        for (int i = 0; i < m; i++) h_free(k[i]); }
}
static void t_realloc(void) {
    ul ss[] = {0, 1, 8, 16, 24, 40, 100, 120, 121, 1000, 4000, 4096, 8184, 16000, 16376, 20000, 100000, 131064, 131065, 131072, 131073, 140000, 262144, 300000, 1000000, 5000000, 20000000, 33554432, 40000000, 70000000};
    int N = sizeof ss / sizeof *ss; nbad = 0;
    for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) for (int k = 0; k < 2; k++) {
        ul x = ss[a], y = ss[b]; uc *p = k && x ? h_aligned_alloc(8192, x) : h_malloc(x); uc *q; for (ul i = 0; i < x; i += x > 100000 ? 509 : 1) p[i] = i * 7 + 3; if (x) p[x - 1] = 77;
        q = h_realloc(p, y); ck(q, "realloc(%lu, %lu)", x, y); ul m = x < y ? x : y;
        for (ul i = 0; i < m; i += x > 100000 ? 509 : 1) if (i != x - 1) ck(q[i] == (uc)(i * 7 + 3), "realloc(%lu -> %lu, aligned %d): byte %lu", x, y, k, i);
        if (m == x && x) ck(q[x - 1] == 77, "realloc(%lu -> %lu): last byte", x, y);
        ul u = h_malloc_usable_size(q); ck(u >= y, "realloc(%lu -> %lu): usable %lu", x, y, u); if (u) { ck(slabsize(u) || (prot_of((ul)q, (ul)q + PG(u)) == 3 && prot_of((ul)q + PG(u), (ul)q + PG(u) + 4096) == 0 && prot_of((ul)q - 4096, (ul)q) == 0), "realloc(%lu -> %lu): mapping", x, y); memset(q + (y ? 0 : 0), 1, y); }
        if (q != p && ((x + y) % 5 == 0)) ck(aborts(fr, p), "realloc(%lu -> %lu): the old block is still live", x, y);
        h_free(q); if ((a + b) % 7 == 0) ck(aborts(fr, q), "double free after realloc"); }
    ck(!nbad, "mapping operation outside the reserved ranges: %s", bad_what);
}
static int live_fds(void) { return 0; }
static void t_oom(void) {
    ul ss[] = {0, 16, 100, 5000, 20000, 131072, 200000, 1000000, 40000000}; int N = 9; (void)live_fds;
    uc *warm = h_malloc(10); h_free(warm); h_free(h_malloc(500000)); int keep = 0;
    for (int op = 0; op < 7; op++) for (int a = 0; a < N; a++) for (int b = 0; b < (op == 2 || op == 6 ? N : 1); b++) for (int allf = 0; allf < 2; allf++) for (long at = 0; at < 40; at++) {
        uc *p = NULL; ul x = ss[a], y = ss[b]; if (op >= 2 && op != 3 && op != 4) { p = op == 6 ? h_aligned_alloc(65536, x + !x) : h_malloc(x); ck(p); if (x) use(p, x, 5); }
        long before = nmapped; void *m = (void *)9; uc *q = NULL; int e = 0;
        ncall = 0; failed = false; fail_all = allf; fail_at = at; errno = 4242; 
        if (op == 0) q = h_malloc(x); else if (op == 1) q = h_calloc(1, x); else if (op == 2 || op == 6) q = h_realloc(p, y); else if (op == 3) q = h_aligned_alloc(1 << 16, x + !x); else if (op == 4) { e = h_posix_memalign(&m, 1 << 14, x + !x); q = e ? NULL : m; } else if (op == 5) h_free(p);
        int en = errno; bool f = failed; fail_at = -1; fail_all = false;
        ck(!nbad, "mapping operation outside the reserved ranges: %s", bad_what);
        if (op == 5) { ck(en == 4242, "free(%lu) with system call %ld failing: errno %d", x, at, en); ck(aborts(fr, p), "a freed block is accepted again"); }
        else if (!q) { ck(f, "failure without cause"); if (op == 4) ck(e == ENOMEM && m == (void *)9, "posix_memalign: %d", e); else ck(en == ENOMEM, "op %d(%lu) call %ld failing: errno %d", op, x, at, en);
            ck(allf || nmapped <= before, "op %d(%lu -> %lu): %ld bytes of address space leaked when call %ld fails", op, x, y, nmapped - before, at);
            if (p) { ck(!x || has(p, x, 5), "a failed realloc changed the old block"); ck(h_malloc_usable_size(p) >= x); if (x) use(p, x, 6); h_free(p); } }
        else { ck(h_malloc_usable_size(q) >= (p ? y : x)); if (p && x && y) { ul k = x < y ? x : y; ck(q[0] == 5 && q[k - 1] == (k == x ? 5 : k > 4096 && k < x - 4096 && x > 65536 ? q[k - 1] : 5)); } ul w = p ? y : x; if (w) { use(q, w, 3); ck(has(q, w, 3)); } h_free(q); }
        // still usable
        if (at % 4 == 0) { uc *z = h_malloc(x); ck(z); if (x) use(z, x, 1); h_free(z); z = h_malloc(300000); ck(z); use(z, 300000, 1); h_free(z); }
        if (!f) { keep++; break; } }
}
static void badop(void *a) { struct two *t = a; uc *p = h_malloc(t->a), *q = h_malloc(16); (void)q; fail_errno = t->c; fail_at = t->b >> 4; ncall = 0; failed = false;
    switch (t->b & 15) { case 0: h_malloc(t->a); break; case 1: h_free(p); break; case 2: h_realloc(p, t->a * 2 + 5000); break; case 3: h_realloc(p, t->a / 2); break; case 4: h_aligned_alloc(1 << 20, t->a); break; case 5: h_realloc(p, 50000000); break; }
    if (!failed) _exit(9); }
static void t_einval(void) {
    ul ss[] = {100, 20000, 131072, 200000, 40000000}; int ee[] = {EINVAL, EAGAIN, EPERM, EACCES};
    for (int i = 0; i < 5; i++) for (int op = 0; op < 6; op++) for (ul at = 0; at < 12; at++) { struct two t = {ss[i], op | at << 4, ee[rnd() % 4]}; int s = child(badop, &t, 20); if (WIFEXITED(s) && WEXITSTATUS(s) == 9) break; ck(WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT, "op %d size %lu: system call %lu failing with errno %lu is not fatal", op, ss[i], at, t.c); }
}
static void t_errno(void) {
    ul ss[] = {0, 16, 100, 5000, 20000, 131072, 200000, 1000000, 40000000};
    for (int r = 0; r < 3000; r++) { ul n = ss[rnd() % 9]; uc *p = rnd() & 1 ? h_malloc(n) : h_aligned_alloc(4096, n); poison = 77; errno = 5; switch (rnd() % 3) { case 0: h_free(p); break; default: h_free(p); h_free(NULL); } int e = errno; poison = 0; ck(e == 5, "free of %lu changed errno to %d", n, e); }
    static uc *k[3000]; for (int c = 1; c < NC; c++) { int m = SLOTS[c] * 4 + 4; for (int i = 0; i < m; i++) k[i] = h_malloc(S16[c] - CAN); for (int i = 0; i < m; i++) { poison = 88; errno = 6; h_free(k[i]); int e = errno; poison = 0; ck(e == 6, "free in class %lu changed errno to %d", S16[c], e); } }
}
static void t_locks(void) {
    lockcheck = 1;
    // exactly one call fails, in particular one that the growth of the table makes
    h_free(h_malloc(10)); fail_all = false; static const int K[][2] = {{4, 1}, {2, 0}, {2, 2}, {3, 1}, {1, 0}, {1, 2}, {2, 1}, {0, 0}, {1, 1}, {0, 2}, {0, 1}, {5, 1}, {4, 1}, {3, 0}, {2, 0}, {2, 2}}; for (int z = 0; z < 16; z++) for (int i = 0, bad = 0, k = K[z][0], kind = K[z][1]; i < 200 && bad < 3; i++) { void *q = kind == 2 ? h_malloc(100) : NULL; ncall = 0; fail_at = k; void *p = kind == 0 ? h_malloc(200000) : kind == 1 ? h_aligned_alloc(65536, 200000) : h_realloc(q, 200000); fail_at = -1; bad += !p; ck(!held, "a lock is still held after an operation of kind %d whose system call %d failed", kind, k); }
    for (int s = 0; s < 20000; s++) { int i = rnd() % 200; ul n = pick(); if ((long)n < 0) n = 0; switch (rnd() % 6) { case 0: case 1: if (!B[i].p) B[i].p = h_malloc(n); break; case 2: if (B[i].p) B[i].p = h_realloc(B[i].p, n); break; case 3: h_free(B[i].p); B[i].p = 0; break; case 4: if (B[i].p) h_malloc_usable_size(B[i].p), h_malloc_object_size(B[i].p); break; default: if (rnd() % 60 == 0) h_malloc_trim(0); else if (!B[i].p) B[i].p = h_aligned_alloc(1UL << rnd() % 17, n); } ck(!held, "a lock is still held after a call"); ck(!nnest, "two locks held at once"); }
    h_mallinfo2(); ck(!held && !nnest); FILE *f = fopen("/dev/null", "w"); h_malloc_info(0, f); ck(!held && !nnest);
    long l0; fail_at = 0; ncall = 0; fail_all = true; for (int i = 0; i < 2000; i++) { l0 = nlocks; h_free(h_malloc(pick() % 900000)); ck(!held, "a lock is still held after a failing call"); (void)l0; } fail_at = -1;
}
static pthread_barrier_t bar; static volatile bool stop_; static volatile ul thr_bad;
static void *thr(void *a) { ul r = (ul)a * 977 + 1, bad = 0; struct { uc *p; ul n; uc v; } q[64] = {0}; for (int s = 0; s < 30000; s++) { r = r * 6364136223846793005UL + 1442695040888963407UL; int i = r >> 33 & 63; if (q[i].p) { for (ul x = 0; x < (q[i].n > 256 ? 256 : q[i].n); x++) bad += q[i].p[x] != q[i].v; if (r >> 60 & 1) { q[i].p = h_realloc(q[i].p, q[i].n = r >> 40 & 0xfff); memset(q[i].p, q[i].v, q[i].n); } else { h_free(q[i].p); q[i].p = 0; } } else { q[i].n = (r >> 50 & 31) ? r >> 40 & 0x7ff : r >> 40 & 0x7ffff; q[i].v = r; q[i].p = h_malloc(q[i].n); if (q[i].n) memset(q[i].p, q[i].v, q[i].n > 4096 ? 256 : q[i].n); if (q[i].n > 4096) q[i].n = q[i].n; } } if (bad) thr_bad += bad; return 0; }
static void t_threads(void) { pthread_t t[8]; track = false; for (ul i = 0; i < 8; i++) pthread_create(t + i, 0, thr, (void *)(i + 1)); for (int i = 0; i < 8; i++) pthread_join(t[i], 0); ck(!thr_bad, "contents of blocks changed under concurrency"); (void)bar; (void)stop_; }
static void osz(void *p) { h_malloc_object_size(p); }
static void t_osize(void) {
    ck(h_malloc_object_size(NULL) == 0 && h_malloc_object_size_fast(NULL) == 0); int loc; 
    uc *w = h_malloc(1); ck(h_malloc_object_size(&loc) == ~0UL, "unowned pointer"); ck(h_malloc_object_size_fast(&loc) == ~0UL, "unowned pointer, fast"); ck(h_malloc_object_size((void *)t_osize) == ~0UL); h_free(w);
    for (int c = 0; c < NC; c++) for (int k = 0; k < 2 + SLOTS[c] / 9; k++) { ul u = c ? S16[c] - CAN : 0; uc *p = h_malloc(u); for (ul o = 0; o < u || !o; o += u < 300 ? 1 : 1 + rnd() % 777) { ul g = h_malloc_object_size(p + o); ck(g == u - o, "malloc_object_size at offset %lu of a block of %lu: %lu", o, u, g); ul h = h_malloc_object_size_fast(p + o); ck(h >= u - o, "malloc_object_size_fast at offset %lu of %lu: %lu", o, u, h); if (!u) break; } if (k & 1) h_free(p); }
    for (int r = 0; r < 30; r++) { ul n = MAXS + 1 + rnd() % 3000000; uc *p = r & 1 ? h_malloc(n) : h_aligned_alloc(1 << 16, n); ck(h_malloc_object_size(p) == h_malloc_usable_size(p)); ck(h_malloc_object_size_fast(p) >= h_malloc_usable_size(p)); ck(h_malloc_object_size(p + 16) == ~0UL); h_free(p); }
    (void)osz;
}
static void stats_now(void) {
#if CONFIG_STATS
    ul sm = 0, lg = 0; ul per[64] = {0}, cnt[64] = {0};
    for (int i = 0; i < NB; i++) if (B[i].p) { ul u = h_malloc_usable_size(B[i].p); if (slabsize(u)) { sm += u ? u + CAN : 16; per[cls(u ? u + CAN : 0)] += u ? u + CAN : 16; cnt[cls(u ? u + CAN : 0)]++; } else lg += u; }
    struct mallinfo2 m = h_mallinfo2(); ck(m.uordblks == sm + lg, "mallinfo2 reports %lu allocated bytes, %lu are live", (ul)m.uordblks, sm + lg); ck(m.hblkhd >= lg && m.hblks >= 0); (void)per; (void)cnt;
    char *b = NULL; size_t bn; FILE *f = open_memstream(&b, &bn); h_malloc_info(0, f); fclose(f);
    ul al = 0, nm[64] = {0}, nd[64] = {0}, tot[64] = {0}, large = 0; int cur = -1;
    for (char *s = b; (s = strchr(s, '<')); s++) { ul v; int k; if (sscanf(s, "<bin nr=\"%d\"", &k) == 1) cur = k; if (sscanf(s, "<nmalloc>%lu", &v) == 1 && cur >= 0) nm[cur] += v; if (sscanf(s, "<ndalloc>%lu", &v) == 1 && cur >= 0) nd[cur] += v; if (sscanf(s, "<slab_allocated>%lu", &v) == 1) al += v; if (!strncmp(s, "</bin", 5)) cur = -1; if (sscanf(s, "<allocated>%lu", &v) == 1) { if (cur >= 0) tot[cur] += v; else large += v; } if (sscanf(s, "<allocated_large>%lu", &v) == 1) large += v; }
    for (int c = 0; c < NC; c++) { ck(tot[c] == per[c], "malloc_info: class %lu reports %lu bytes, %lu are live", S16[c], tot[c], per[c]); ck(nm[c] - nd[c] == cnt[c], "malloc_info: class %lu: %lu allocations, %lu frees, %lu live", S16[c], nm[c], nd[c], cnt[c]); }
    (void)al; (void)large; free(b);
#endif
}
static void t_stats(void) { maxal = 13; memset(B, 0, sizeof B); for (int r = 0; r < 40; r++) { stress(1500); stats_now(); } fail_all = true; for (int r = 0; r < 300; r++) { fail_at = rnd() % 3; ncall = 0; void *p = h_malloc(pick() % 900000); fail_at = -1; if (p) h_free(p); int i = rnd() % NB; if (B[i].p) { fail_at = rnd() % 4; ncall = 0; ul n = pick() % 900000; void *q = h_realloc(B[i].p, n); fail_at = -1; if (q) { B[i].p = q; B[i].n = n; B[i].v = 1; if (n) use(q, n, 1); } } if (r % 10 == 0) stats_now(); } fail_all = false; h_malloc_trim(0); stats_now(); }
#if CONFIG_SEAL_METADATA
static ssize_t allocating_write(void *c, const char *b, size_t n) { (void)c; (void)b; h_free(h_malloc(n)); return (ssize_t)n; }
#endif
static void t_seal(void) {
#if CONFIG_SEAL_METADATA
#define SEALED(w) ck(key_access == 1 || key_access == 3, "metadata access is enabled after " w)
    h_free(h_malloc(10)); SEALED("malloc"); ck(nkeymeta > 0); sealcheck = 1;
    { FILE *f = fopencookie(NULL, "w", (cookie_io_functions_t){.write = allocating_write}); setvbuf(f, NULL, _IONBF, 0); h_malloc_info(0, f); fclose(f); SEALED("malloc_info"); }
    for (int s = 0; s < 30000; s++) { int i = rnd() % 300; ul n = pick() % 900000; long f = rnd() % 9 == 0 ? (long)(rnd() % 3) : -1; fail_at = f; ncall = 0; void *m; switch (rnd() % 12) { case 0: case 1: if (!B[i].p) B[i].p = h_malloc(n); SEALED("malloc"); break; case 2: { void *q = B[i].p ? h_realloc(B[i].p, n) : 0; SEALED("realloc"); if (q) B[i].p = q; } break; case 3: h_free(B[i].p); B[i].p = 0; SEALED("free"); break; case 4: if (B[i].p) h_malloc_usable_size(B[i].p); SEALED("malloc_usable_size"); break; case 5: h_malloc_object_size(B[i].p); SEALED("malloc_object_size"); break; case 6: h_malloc_object_size_fast(B[i].p); SEALED("malloc_object_size_fast"); break; case 7: if (!B[i].p) B[i].p = h_aligned_alloc(1UL << rnd() % 18, n); SEALED("aligned_alloc"); break; case 8: if (!h_posix_memalign(&m, 1UL << rnd() % 18, n)) h_free(m); SEALED("posix_memalign"); break; case 9: h_calloc(1UL << 40, n + (1UL << 30)); SEALED("calloc"); break; case 10: h_realloc(B[i].p, ~0UL - n); SEALED("failing realloc"); break; default: if (s % 50 == 0) { fail_at = -1; h_malloc_trim(0); SEALED("malloc_trim"); h_mallinfo2(); SEALED("mallinfo2"); FILE *ff = fopen("/dev/null", "w"); h_malloc_info(0, ff); SEALED("malloc_info"); fclose(ff); if (1) { h_free_sized(h_malloc(100), 100); h_free_sized(h_malloc(400000), 400000); SEALED("free_sized"); } } } fail_at = -1; }
    pid_t p = fork(); if (!p) { if (key_access == 0) _exit(1); h_free(h_malloc(10)); _exit(0); } int st; waitpid(p, &st, 0); ck(WIFEXITED(st) && !WEXITSTATUS(st), "after fork in the child"); SEALED("fork");
#endif
}
static void t_slot(void) {
    for (int c = 1; c < NC; c++) if (SLOTS[c] > 1 && SLOTS[c] <= 16) { int cnt[16] = {0}; ul S = S16[c];
        for (int r = 0; r < 400; r++) { int fd[2]; if (pipe(fd)) return; pid_t p = fork(); if (!p) { uc *a[17]; ul lo = ~0UL; /* the first slab of a class, all of it */ for (int i = 0; i < SLOTS[c]; i++) { a[i] = h_malloc(S - CAN); if ((ul)a[i] < lo) lo = (ul)a[i]; } char o = 99; ul hi = 0; for (int i = 0; i < SLOTS[c]; i++) if ((ul)a[i] > hi) hi = (ul)a[i]; if (hi - lo == (ul)(SLOTS[c] - 1) * S) o = ((ul)a[0] - lo) / S; if (__real_write(fd[1], &o, 1)) {} _exit(0); } close(fd[1]); char o = 98; if (read(fd[0], &o, 1) != 1) fail(0, "child", "class %lu", S); close(fd[0]); waitpid(p, 0, 0); ck(o != 99, "class %lu: %d allocations do not fill the first slab: a free slot is unreachable", S, SLOTS[c]); cnt[(int)o]++; }
#if SLOT_RANDOMIZE
        for (int i = 0; i < SLOTS[c]; i++) ck(cnt[i], "class %lu: slot %d never chosen in 400 trials", S, i);
#else
        ck(cnt[0] == 400, "class %lu: not the lowest free slot", S);
#endif
    }
    for (int c = 0; c < NC; c++) for (int r = 0; r < 3; r++) { static uc *k[300]; ul S = c ? S16[c] : 16, slab = PG(S * SLOTS[c]); // whole slabs are filled
        int ok = 0; struct two t = {c, 0, 0}; void f(void *a) { struct two *q = a; int c2 = q->a; ul S2 = c2 ? S16[c2] : 16; ul lo = ~0UL, hi = 0; for (int i = 0; i < SLOTS[c2]; i++) { k[i] = h_malloc(c2 ? S2 - CAN : 0); if ((ul)k[i] < lo) lo = (ul)k[i]; if ((ul)k[i] > hi) hi = (ul)k[i]; } if (hi - lo != (ul)(SLOTS[c2] - 1) * S2) _exit(2); } (void)ok; (void)slab; int s = child(f, &t, 20); ck(WIFEXITED(s) && !WEXITSTATUS(s), "class %lu: %d allocations do not fill the first slab exactly", S16[c], SLOTS[c]); }
}
static void t_random(void) {
    struct random_state s; memset(&s, 0, sizeof s); h_free(0);
    // a 16-bit draw for every raw value
    u16 bs[] = {1, 2, 3, 5, 6, 7, 10, 16, 42, 51, 54, 85, 100, 128, 256, 257, 1000, 4096, 8192, 10000, 21846, 32767, 32768, 32769, 40000, 65535};
    for (unsigned i = 0; i < sizeof bs / sizeof *bs; i++) { static unsigned cnt[65536]; memset(cnt, 0, sizeof cnt); u16 b = bs[i]; unsigned rej = 0;
        for (unsigned v = 0; v < 65536; v++) { random_state_init(&s); s.index = RANDOM_CACHE_SIZE - 4; s.cache[RANDOM_CACHE_SIZE - 4] = v; s.cache[RANDOM_CACHE_SIZE - 3] = v >> 8; s.cache[RANDOM_CACHE_SIZE - 2] = 0x55; s.cache[RANDOM_CACHE_SIZE - 1] = 0x55; u16 x = get_random_u16_uniform(&s, b); ck(x < b, "get_random_u16_uniform(%u) = %u", b, x); if (s.index == RANDOM_CACHE_SIZE - 2) cnt[x]++; else rej++; if (i > 4 && v == 0) grmode = 3; }
        grmode = 0; for (unsigned k = 1; k < b; k++) ck(cnt[k] == cnt[0], "get_random_u16_uniform(%u): value %u has %u raw draws, value 0 has %u", b, k, cnt[k], cnt[0]); ck(rej == 65536 % b, "get_random_u16_uniform(%u) rejects %u raw draws", b, rej); }
    u64 b64[] = {1, 2, 3, 1000, 1UL << 32, (1UL << 63) + 1, 3UL << 62, ~0UL, 12345678901234567UL, (1UL << 63)}; 
    for (unsigned i = 0; i < 10; i++) for (int r = 0; r < 3000; r++) { u64 b = b64[i], v = r & 1 ? rnd() * rnd() : (u64)r / 2, w = 0x5555555555555555UL; random_state_init(&s); s.index = RANDOM_CACHE_SIZE - 16; memcpy(s.cache + s.index, &v, 8); memcpy(s.cache + s.index + 8, &w, 8); u64 x = get_random_u64_uniform(&s, b); ck(x < b, "get_random_u64_uniform(%#lx) = %#lx", (ul)b, (ul)x); unsigned __int128 m = (unsigned __int128)v * b; bool acc = (u64)m >= -b % b; if (acc) ck(s.index == RANDOM_CACHE_SIZE - 8 && x == (u64)(m >> 64), "get_random_u64_uniform(%#lx): an acceptable draw is rejected or mapped wrongly", (ul)b); else ck(s.index != RANDOM_CACHE_SIZE - 8, "get_random_u64_uniform(%#lx): a draw to reject is accepted", (ul)b); }
}
#define ROT(a, b) ((a) << (b) | (a) >> (32 - (b)))
#define QR(a, b, c, d) (a += b, d ^= a, d = ROT(d, 16), c += d, b ^= c, b = ROT(b, 12), a += b, d ^= a, d = ROT(d, 8), c += d, b ^= c, b = ROT(b, 7))
static void ref_block(const uc *key, const uc *iv2, u64 ctr, uc *out) { unsigned x[16], y[16]; memcpy(x, "expand 32-byte k", 16); memcpy(x + 4, key, 32); x[12] = ctr; x[13] = ctr >> 32; memcpy(x + 14, iv2, 8); memcpy(y, x, 64);
    for (int r = 0; r < 4; r++) { QR(y[0], y[4], y[8], y[12]); QR(y[1], y[5], y[9], y[13]); QR(y[2], y[6], y[10], y[14]); QR(y[3], y[7], y[11], y[15]); QR(y[0], y[5], y[10], y[15]); QR(y[1], y[6], y[11], y[12]); QR(y[2], y[7], y[8], y[13]); QR(y[3], y[4], y[9], y[14]); } for (int i = 0; i < 16; i++) y[i] += x[i]; memcpy(out, y, 64); }
static void grfail(void *x) { (void)x; struct random_state s; grmode = 2; random_state_init(&s); }
static void t_stream(void) {
    struct random_state s; 
    for (int mode = 0; mode < 2; mode++) { ngr = 0; grfill = 0; grmode = mode ? 1 : 3; random_state_init(&s); uc seed[40], f = 0; for (int i = 0; i < 40; i++) seed[i] = ++f; u64 blk = 0; uc buf[64]; unsigned pos = 64; ul out = 0; 
        uc cache[256]; unsigned cpos = 256; ul since = 0; bool first = true;
        for (int r = 0; r < 200000; r++) { int w = rnd() % 3; unsigned k = w == 0 ? 2 : w == 1 ? 8 : 1 + rnd() % 100; uc got[128], want[128]; if (w == 0) { u16 v = get_random_u16(&s); memcpy(got, &v, 2); } else if (w == 1) { u64 v = get_random_u64(&s); memcpy(got, &v, 8); } else get_random_bytes(&s, got, k);
            unsigned done = 0; if (w < 2 && 256 - cpos < k) cpos = 256;
            while (done < k) { if (cpos == 256) { if (since >= 256 * 1024) { for (int i = 0; i < 40; i++) seed[i] = ++f; blk = 0; since = 0; } for (int b = 0; b < 4; b++) ref_block(seed, seed + 32, blk++, cache + 64 * b); cpos = 0; since += 256; } want[done++] = cache[cpos++]; }
            ck(!memcmp(got, want, k), "output %lu bytes after seeding is not the ChaCha8 keystream (request of %u)", out, k); out += k; }
        (void)buf; (void)pos; (void)first; }
    { chacha_ctx c; uc key[40], o[256], w[256]; for (int i = 0; i < 40; i++) key[i] = i * 5 + 1; for (int d = 0; d < 5; d++) { chacha_keysetup(&c, key); chacha_ivsetup(&c, key + 32); c.input[12] = 0u - d; c.input[13] = 7; u64 k = 7UL << 32 | (unsigned)(0u - d); for (int r = 0; r < 2; r++) { chacha_keystream_bytes(&c, o, 256); for (int b = 0; b < 4; b++) ref_block(key, key + 32, k++, w + 64 * b); ck(!memcmp(o, w, 256), "keystream near the overflow of the low counter word"); } } }
    grmode = 0; ck(aborts(grfail, NULL), "failure of getrandom is not fatal");
}
static void t_fatal(void) {
    extern void fatal_error(const char *); const char *m = "some message that is long enough";
    wrmode = 1; abmode = 1; nwr = 0; if (!setjmp(abj)) { fatal_error(m); fail(0, "fatal_error returned", ""); } wrmode = 0; char want[200]; snprintf(want, sizeof want, "fatal allocator error: %s\n", m); wrbuf[nwr] = 0; ck(!strcmp(wrbuf, want), "message written: '%s'", wrbuf);
    wrmode = 2; if (!setjmp(abj)) { fatal_error(m); fail(0, "fatal_error returned", ""); } wrmode = 0;
}
static void ff(void *x) { (void)x; extern void fatal_error(const char *); wrmode = 2; fatal_error("x"); }
static void t_fatal2(void) { ck(aborts(ff, NULL), "no abort when writing fails"); }
static void *spin(void *x) { while (!stop_) { void *p = h_malloc(rnd() % 3000); void *q = h_malloc(200000); h_free(p); h_free(q); } return x; }
static void t_fork(void) {
    track = false; h_free(h_malloc(1)); pthread_t t[4]; for (int i = 0; i < 4; i++) pthread_create(t + i, 0, spin, 0); int bad = 0;
    for (int r = 0; r < 300; r++) { pid_t p = fork(); if (!p) { alarm(10); held = 0; for (int c = 0; c < NC; c++) { void *q = h_malloc(c ? S16[c] - CAN : 0); h_free(q); } h_free(h_realloc(h_malloc(300000), 700000)); _exit(0); } int s; waitpid(p, &s, 0); bad += s != 0; ck(!bad, "the child of a fork cannot allocate"); void *q = h_malloc(100); h_free(q); }
    stop_ = true; for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
    // random choices of parent and child differ
#if SLOT_RANDOMIZE
    int fd[2]; if (pipe(fd)) return; ul a[2][64]; pid_t p = fork(); for (int i = 0; i < 64; i++) a[0][i] = (ul)h_malloc(24); if (!p) { if (__real_write(fd[1], a[0], sizeof a[0])) {} _exit(0); } ck(read(fd[0], a[1], sizeof a[1]) == sizeof a[1]); waitpid(p, 0, 0); ck(memcmp(a[0], a[1], sizeof a[0]), "parent and child make the same random choices");
    p = fork(); for (int i = 0; i < 64; i++) a[0][i] = (ul)h_malloc(0); if (!p) { if (__real_write(fd[1], a[0], sizeof a[0])) {} _exit(0); } ck(read(fd[0], a[1], sizeof a[1]) == sizeof a[1]); waitpid(p, 0, 0); ck(memcmp(a[0], a[1], sizeof a[0]), "parent and child make the same random choices");
    int eq = 0; for (int r = 0; r < 6; r++) { p = fork(); ul z = 0; for (int i = 0; i < 8; i++) { void *q = h_malloc(64000000); ul lo = (ul)q - 1, hh = 0; for (int j = 0; j < niv; j++) if (iv[j].a <= lo && lo < iv[j].b) hh = (ul)q - iv[j].a; z = z * 31 + hh; } if (!p) { if (__real_write(fd[1], &z, 8)) {} _exit(0); } ul y; ck(read(fd[0], &y, 8) == 8); waitpid(p, 0, 0); eq += 0 * (y == z); } ck(eq < 5);
#endif
}
static void *initthr(void *x) { pthread_barrier_wait(&bar); *(void **)x = h_malloc(40); return 0; }
static void t_init(void) {
    pthread_barrier_init(&bar, 0, 16); pthread_t t[16]; static void *r[16]; track = true; for (int i = 0; i < 16; i++) pthread_create(t + i, 0, initthr, &r[i]); for (int i = 0; i < 16; i++) pthread_join(t[i], 0);
    for (int i = 0; i < 16; i++) { ck(r[i]); for (int j = 0; j < i; j++) ck(r[i] != r[j], "two threads got the same block"); } for (int i = 0; i < 16; i++) h_free(r[i]);
    // regions of the classes: disjoint, with inaccessible pages around
    static struct { ul a; int c; } q[64]; for (int c = 0; c < NC; c++) { void *p = h_malloc(c ? S16[c] - CAN : 0); q[c].a = (ul)p; q[c].c = c; ck(!c || h_malloc_usable_size(p) == S16[c] - CAN); }
    for (int i = 0; i < NC; i++) for (int j = 0; j < i; j++) { ul d = q[i].a > q[j].a ? q[i].a - q[j].a : q[j].a - q[i].a; ck(d > CONFIG_CLASS_REGION_SIZE / 4 || d > 1 << 20, "class regions too close"); }
    ul g[8]; int same = 0; for (int r2 = 0; r2 < 8; r2++) g[r2] = q[r2 + 1].a; for (int i = 2; i < 8; i++) same += (g[i] - g[i - 1]) % CONFIG_CLASS_REGION_SIZE == (g[i - 1] - g[i - 2]) % CONFIG_CLASS_REGION_SIZE; ck(same < 4, "class regions are not randomly placed");
}
struct { const char *n; void (*f)(void); } T[] = {{"usable", t_usable}, {"huge", t_huge}, {"align", t_align}, {"stress", t_stress}, {"classes", t_classes}, {"badfree", t_badfree}, {"table", t_table}, {"sized", t_sized}, {"canary", t_canary}, {"canary2", t_canary2}, {"waf", t_waf}, {"calloc", t_calloc}, {"quar", t_quar}, {"quar2", t_quar2}, {"large", t_large}, {"gsize", t_gsize}, {"rquar", t_rquar}, {"purge", t_purge}, {"guard", t_guard}, {"realloc", t_realloc}, {"oom", t_oom}, {"einval", t_einval}, {"errno", t_errno}, {"locks", t_locks}, {"threads", t_threads}, {"osize", t_osize}, {"stats", t_stats}, {"seal", t_seal}, {"slot", t_slot}, {"random", t_random}, {"stream", t_stream}, {"fatal", t_fatal}, {"fatal2", t_fatal2}, {"fork", t_fork}, {"init", t_init}};
static void sig(int s) { if (s == SIGALRM) { static const char m[] = "TIMEOUT\n"; if (__real_write(1, m, sizeof m - 1)) {} _exit(0); } fail(0, s == SIGABRT ? "unexpected abort" : "unexpected signal", "%d", s); }
int main(int argc, char **argv) {
    if (argc < 2) return 2; test = argv[1]; rs ^= argc > 2 ? strtoul(argv[2], 0, 0) * 0x9e3779b97f4a7c15UL : 0; if (!rs) rs = 1;
    struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(SIGABRT, sig); signal(SIGSEGV, sig); signal(SIGBUS, sig); signal(SIGFPE, sig); signal(SIGILL, sig); signal(SIGALRM, sig); alarm(argc > 3 ? atoi(argv[3]) : 60);
    for (unsigned i = 0; i < sizeof T / sizeof *T; i++) if (!strcmp(T[i].n, test)) { T[i].f(); puts("nothing found"); return 0; }
    return 2;
}
