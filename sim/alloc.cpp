// Allocation seam: the program's malloc family, so every request of the library (and of the C++ runtime on its
// behalf) passes through here. Passive unless a run arms it.
#include "core.hpp"
#include <cerrno>
#include <new>
#include <link.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
namespace mem {
Ctl ctl;
static constexpr size_t CAP = 1 << 16;
struct Ent { void* p; size_t n; };
static Ent tab[CAP]; static size_t used = 0; static u64 live = 0, liveB = 0;
static void* const TOMB = (void*)1;
static size_t slot(void* p) { return (size_t)(mix((u64)p)) & (CAP - 1); }
static void ins(void* p, size_t n) { if(used > CAP * 3 / 4) { return; } size_t i = slot(p); while(tab[i].p && tab[i].p != TOMB) i = (i + 1) & (CAP - 1); if(!tab[i].p) used++; tab[i] = {p, n}; live++; liveB += n; if(liveB > ctl.peak) ctl.peak = liveB; }
static bool del(void* p) { if(!used) return false; size_t i = slot(p); while(tab[i].p) { if(tab[i].p == p) { live--; liveB -= tab[i].n; tab[i].p = TOMB; return true; } i = (i + 1) & (CAP - 1); } return false; }
u64 liveBlocks() { return live; } u64 liveBytes() { return liveB; }
void reset() { memset(tab, 0, sizeof tab); used = 0; live = liveB = 0; ctl = Ctl{}; }
// requests of the dynamic loader itself (thread-local storage of a loaded image) are not the library's: it ends the process when they fail
static bool fromLoader(void* ra) { static char *lo = nullptr, *hi = nullptr; if(!lo) { lo = (char*)1; bool a = ctl.armed; ctl.armed = false; dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) { if(i->dlpi_name && strstr(i->dlpi_name, "ld-linux")) { lo = (char*)i->dlpi_addr; hi = lo; for(int k = 0; k < i->dlpi_phnum; k++) if(i->dlpi_phdr[k].p_type == PT_LOAD) { char* e = lo + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz; if(e > hi) hi = e; } } return 0; }, nullptr); ctl.armed = a; } return (char*)ra >= lo && (char*)ra < hi; }
static bool deny(size_t n) {
    u64 k = ctl.n++; ctl.bytes += n; if(n > ctl.maxReq) ctl.maxReq = n;
    if((k >= ctl.failFrom && k < ctl.failBelow) || (ctl.failAt && ctl.failAt->count(k))) { ctl.failed++; return true; }
    return false;
}
static thread_local bool busy = false;
void (*onAlloc)(void*, size_t) = nullptr;
static void* got(void* p, size_t n) { if(p) { if(ctl.fill >= 0) memset(p, ctl.fill, n); if(ctl.track) ins(p, n); } return p; }
}
using mem::ctl;
// The C++ runtime notes the destructor of a thread-local variable by an allocation of its own, and ends the process when
// that is refused; as with the loader's requests, this one is not the library's.
extern "C" int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
extern "C" __attribute__((visibility("default"))) int __cxa_thread_atexit(void (*f)(void*), void* o, void* d) { bool was = mem::busy; mem::busy = true; int r = __cxa_thread_atexit_impl(f, o, d); mem::busy = was; return r; }
#define ARMED (ctl.armed && !mem::busy && !mem::fromLoader(__builtin_return_address(0)))
extern "C" {
void* malloc(size_t n) { if(ARMED) { mem::busy = true; bool d = mem::deny(n); mem::busy = false; if(d) { errno = ENOMEM; return nullptr; } return mem::got(__libc_malloc(n), n); } void* p = __libc_malloc(n); if(mem::onAlloc && p) mem::onAlloc(p, n); return p; }
void free(void* p) { if(!p) return; mem::del(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { if(ARMED) { mem::busy = true; bool d = mem::deny(a*b); mem::busy = false; if(d) { errno = ENOMEM; return nullptr; } void* p = __libc_calloc(a, b); if(p && ctl.track) mem::ins(p, a*b); return p; } void* p = __libc_calloc(a, b); if(mem::onAlloc && p) mem::onAlloc(p, a*b); return p; }
void* realloc(void* q, size_t n) { if(ARMED) { mem::busy = true; bool d = mem::deny(n); mem::busy = false; if(d) { errno = ENOMEM; return nullptr; } bool had = q && mem::del(q); void* p = __libc_realloc(q, n); if(p && (ctl.track || had)) mem::ins(p, n); return p; }
    bool had = q && mem::del(q); void* p = __libc_realloc(q, n); if(had && p) mem::ins(p, n); if(mem::onAlloc && p && p != q) mem::onAlloc(p, n); return p; }
void* memalign(size_t al, size_t n) { if(ARMED) { mem::busy = true; bool d = mem::deny(n); mem::busy = false; if(d) { errno = ENOMEM; return nullptr; } return mem::got(__libc_memalign(al, n), n); } void* p = __libc_memalign(al, n); if(mem::onAlloc && p) mem::onAlloc(p, n); return p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = memalign(al, n); if(!p) return ENOMEM; *o = p; return 0; }
}
