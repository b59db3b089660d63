// Replay of violated C25 / C06 obligations: the operators of new.cc on a native build, with allocation failures made by RLIMIT_AS.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <initializer_list>
#include <new>
#include <malloc.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static int failed;
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL C25 "); printf(__VA_ARGS__); printf(" [%s]\n", #c); fflush(stdout); failed = 1; } } while (0)

static struct rlimit old_limit;
static int calls, mode, good_after;
struct derived : std::bad_alloc {};

static unsigned long vm(void) {
    FILE *f = fopen("/proc/self/statm", "r");
    unsigned long v = 0;
    if (!f || fscanf(f, "%lu", &v) != 1) { exit(0); }
    fclose(f);
    return v * 4096;
}

static unsigned long base;
static void shortage(void) { struct rlimit r = old_limit; r.rlim_cur = base + (256 << 10); setrlimit(RLIMIT_AS, &r); }
static void plenty(void) { setrlimit(RLIMIT_AS, &old_limit); }

static void handler(void) {
    calls++;
    if (calls > 20) { plenty(); std::set_new_handler(nullptr); return; }
    if (calls >= good_after) {
        if (mode == 0) { plenty(); return; }
        if (mode == 1) { throw std::bad_alloc(); }
        if (mode == 2) { throw derived(); }
        if (mode == 3) { std::set_new_handler(nullptr); return; }
    }
}

static void *form(int f, size_t n, size_t a) {
    std::align_val_t al = std::align_val_t(a);
    switch (f) {
    case 0: return operator new(n);
    case 1: return operator new[](n);
    case 2: return operator new(n, std::nothrow);
    case 3: return operator new[](n, std::nothrow);
    case 4: return operator new(n, al);
    case 5: return operator new[](n, al);
    case 6: return operator new(n, al, std::nothrow);
    default: return operator new[](n, al, std::nothrow);
    }
}

static void del(int f, int d, void *p, size_t n, size_t a) {
    std::align_val_t al = std::align_val_t(a);
    bool arr = f & 1;
    if (f < 4) {
        switch (d) {
        case 0: arr ? operator delete[](p) : operator delete(p); break;
        case 1: arr ? operator delete[](p, std::nothrow) : operator delete(p, std::nothrow); break;
        default: arr ? operator delete[](p, n) : operator delete(p, n);
        }
    } else {
        switch (d) {
        case 0: arr ? operator delete[](p, al) : operator delete(p, al); break;
        case 1: arr ? operator delete[](p, al, std::nothrow) : operator delete(p, al, std::nothrow); break;
        default: arr ? operator delete[](p, n, al) : operator delete(p, n, al);
        }
    }
}

int main() {
    getrlimit(RLIMIT_AS, &old_limit);
    char *volatile warm = (char *)malloc(1 << 20);
    free(warm);
    try { throw derived(); } catch (const std::bad_alloc &) { }
    // every delete form on a block of the matching new, and on null
    for (int f = 0; f < 8; f++) {
        for (int d = 0; d < 3; d++) {
            fflush(stdout);
            pid_t c = fork();
            if (c == 0) {
                for (size_t n : {0ul, 1ul, 16ul, 24ul, 100ul, 1000ul, 4096ul, 5000ul, 131072ul, 200000ul, 1ul << 21}) {
                    for (size_t a : {1ul, 16ul, 32ul, 64ul, 128ul, 512ul, 4096ul, 8192ul, 1ul << 16, 1ul << 21}) {
                        void *p = form(f, n, a);
                        if (!p || malloc_usable_size(p) < n || (f >= 4 && (uintptr_t)p % a) || (uintptr_t)p % 16 > 0) { _exit(3); }
                        memset(p, 1, n);
                        void *first = p;
                        del(f, d, p, n, a);
                        (void)first;
                        del(f, d, nullptr, n, a);
                        if (f < 4) { break; }
                    }
                }
                // a block that is not released stays live: many rounds must not exhaust a small limit
                base = vm();
                struct rlimit r = old_limit; r.rlim_cur = base + (1ul << 30); setrlimit(RLIMIT_AS, &r);
                for (int i = 0; i < 100; i++) {
                    void *p = form(f, 40 << 20, 64);
                    if (!p) { _exit(4); }
                    del(f, d, p, 40 << 20, 64);
                }
                _exit(0);
            }
            int st;
            waitpid(c, &st, 0);
            CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "new form %d, delete form %d: status %#x", f, d, st);
        }
    }
    // shortage of memory
    for (int f = 0; f < 8; f++) {
        for (int m = -1; m < 4; m++) {
            for (int after = 1; after <= 3; after++) {
                fflush(stdout);
                pid_t c = fork();
                if (c == 0) {
                    bool nothrow = (f & 3) >= 2;
                    size_t n = 5 << 20, a = 1 << 21;
                    calls = 0; mode = m; good_after = after;
                    std::set_new_handler(m < 0 ? nullptr : handler);
                    base = vm();
                    shortage();
                    void *p = nullptr;
                    int thrown = 0;
                    try { p = form(f, n, a); } catch (const std::bad_alloc &) { thrown = 1; } catch (...) { thrown = 2; }
                    plenty();
                    CHECK(calls <= 20, "form %d, handler mode %d: the handler is called for ever", f, m);
                    CHECK(m < 0 || calls == after, "form %d, handler mode %d: handler called %d times, expected %d", f, m, calls, after);
                    if (m == 0) {
                        CHECK(p && !thrown, "form %d: no block although the handler made room (call %d)", f, after);
                        if (p) {
                            CHECK(malloc_usable_size(p) >= n, "form %d: block too small after the handler made room", f);
                            CHECK(f < 4 || (uintptr_t)p % a == 0, "form %d: block not aligned after the handler made room", f);
                            memset(p, 1, n);
                            del(f, 0, p, n, a);
                        }
                    } else {
                        CHECK(!p, "form %d: unexpected block", f);
                        CHECK(thrown == (nothrow ? 0 : 1), "form %d, handler mode %d: thrown %d", f, m, thrown);
                    }
                    fflush(stdout);
                    _exit(failed);
                }
                int st;
                waitpid(c, &st, 0);
                CHECK(WIFEXITED(st), "form %d, handler mode %d, round %d: killed, status %#x", f, m, after, st);
                if (WIFEXITED(st) && WEXITSTATUS(st)) { failed = 1; }
            }
        }
    }
    return failed;
}
