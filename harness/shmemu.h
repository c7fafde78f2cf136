// System V shared memory as the kernel documents it, with every segment's end watched to the byte
// (link with --wrap=shmget,shmat,shmdt): each attachment is its own mapping of the segment, what lies
// behind the requested size is poisoned for AddressSanitizer, read-only attachments are read-only,
// detached ones are gone.  Failures can be injected.
#ifndef SHMEMU_H
#define SHMEMU_H
#include "vt.h"
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/syscall.h>
#include <sanitizer/asan_interface.h>
namespace sh {
struct Seg { int fd; size_t size; int nattch; };
struct Att { int id; size_t map; size_t size; bool ro; };
static std::map<int, int> g_key;       // key -> id
static std::map<int, Seg> g_seg;
static std::map<void *, Att> g_att;
static bool g_real = false; static vt::Rng *g_rng = 0; static void (*g_race)(int key) = 0; // g_race: what another process does just before a create
static int g_next = 1, g_fail_get = 0, g_fail_at = 0, g_bad_dt = 0, g_gets = 0, g_failed = 0;
static void remove(int key) { vt::in_runtime()++; if (g_key.count(key)) g_key.erase(key); vt::in_runtime()--; }
static int attachments(int key) { return g_key.count(key) ? g_seg[g_key[key]].nattch : 0; }
static bool writable(const void *p) { for (auto &a : g_att) if ((char *)p >= (char *)a.first && (char *)p < (char *)a.first + a.second.size) return !a.second.ro; return false; } // is p within an attachment that can be written
static int attachments() { return (int)g_att.size(); }
static void reset(int first) { for (auto &a : g_att) { __asan_unpoison_memory_region(a.first, a.second.map); munmap(a.first, a.second.map); } g_att.clear(); for (auto &s : g_seg) close(s.second.fd); g_seg.clear(); g_key.clear(); g_next = first; g_fail_get = g_fail_at = 0; }
}
namespace sh { static void dawdle() { if (g_rng && g_rng->chance(60)) vt::sleep_us(g_rng->below(400)); } }
extern "C" {
int __real_shmget(key_t, size_t, int); void *__real_shmat(int, const void *, int); int __real_shmdt(const void *);
int __wrap_shmget(key_t key, size_t size, int flag) {
    if (sh::g_real) { sh::dawdle(); int id = __real_shmget(key, size, flag); int e = errno; sh::dawdle(); errno = e; return id; }
    if (sh::g_race && (flag & IPC_CREAT)) { void (*f)(int) = sh::g_race; sh::g_race = 0; f(key); }
    sh::g_gets++;
    if (sh::g_key.count(key) && sh::g_seg.count(sh::g_key[key])) {
        if ((flag & IPC_CREAT) && (flag & IPC_EXCL)) { errno = EEXIST; return -1; }
        int id = sh::g_key[key]; if (size > sh::g_seg[id].size) { errno = EINVAL; return -1; } return id;
    }
    if (!(flag & IPC_CREAT)) { errno = ENOENT; return -1; }
    if (sh::g_fail_get > 0) { sh::g_fail_get--; sh::g_failed++; errno = ENOSPC; return -1; }
    if (!size || size > (1UL << 34)) { errno = EINVAL; return -1; }
    int fd = (int)syscall(SYS_memfd_create, "seg", 0); if (fd < 0 || ftruncate(fd, (size + 4095) & ~4095UL)) { perror("memfd"); abort(); }
    int id = sh::g_next; sh::g_next += 32769; sh::Seg s = {fd, size, 0}; sh::g_seg[id] = s; sh::g_key[key] = id; return id;
}
void *__wrap_shmat(int id, const void *where, int flag) {
    if (sh::g_real) { sh::dawdle(); void *p = __real_shmat(id, where, flag); sh::dawdle(); return p; }
    if (!sh::g_seg.count(id)) { errno = EINVAL; return (void *)-1; }
    if (sh::g_fail_at > 0) { sh::g_fail_at--; sh::g_failed++; errno = ENOMEM; return (void *)-1; }
    sh::Seg &s = sh::g_seg[id]; size_t m = (s.size + 4095) & ~4095UL;
    char *p = (char *)mmap(0, m + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || mmap(p + 4096, m, (flag & SHM_RDONLY) ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, s.fd, 0) == MAP_FAILED) { perror("mmap"); abort(); }
    munmap(p, 4096); munmap(p + 4096 + m, 4096); p += 4096;
    __asan_unpoison_memory_region(p, m); __asan_poison_memory_region(p + s.size, m - s.size);
    sh::Att a = {id, m, s.size, (flag & SHM_RDONLY) != 0}; sh::g_att[p] = a; s.nattch++; return p;
}
int __wrap_shmdt(const void *q) {
    if (sh::g_real) return __real_shmdt(q);
    void *p = (void *)q; if (!sh::g_att.count(p)) { sh::g_bad_dt++; errno = EINVAL; return -1; }
    sh::Att a = sh::g_att[p]; sh::g_att.erase(p); sh::g_seg[a.id].nattch--;
    __asan_unpoison_memory_region(p, a.map); munmap(p, a.map); return 0;
}
}
#endif
