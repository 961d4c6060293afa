// C01: caller threads under a simulated scheduler. The library is compiled so that every memory access calls back here
// (the hooks a thread sanitizer would receive); real threads run one at a time, handing over only where the plan says.
// Checked: happens-before races on shared memory, deadlock, progress, and the result of every call.
#include "core.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <algorithm>
#define HK extern "C" __attribute__((visibility("default")))
#define RA ((uintptr_t)__builtin_return_address(0))
namespace {
constexpr int MT = 12;
enum Cls { ANY, GR, GW, CONF, SYNC, ALLOC, CB, INS, NCLS };
const char* CN[NCLS] = {"any", "gr", "gw", "conf", "sync", "alloc", "cb", "ins"};
struct VC { uint32_t c[MT]{}; void join(const VC& o) { for(int i = 0; i < MT; i++) if(o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Th {
    int id = 0; pthread_t t{}; sem_t sem; enum { RUN, BLOCKED, DONE } st = RUN; const void* waitOn = nullptr; bool timed = false, timedOut = false, live = false;
    VC vc, relF, acqP; u64 cnt[NCLS]{}, next[NCLS]; std::map<u64,std::pair<int,u64>> pre[NCLS]; int64_t budget = 0; char *slo = nullptr, *shi = nullptr;
    bool busy = false, aux = false; const char* op = "-"; u64 tfLeft = 0, tfTotal = 0; int tfTo = 0; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
};
Th* T[MT]; int nT = 0; Th* cur = nullptr; bool active = false; sem_t mainSem; int64_t quantum = 1 << 20; str verdictKind, verdictDetail; Report* rep; u64 switches = 0, steps = 0; bool aux_used = false;
Th* finished = nullptr; pthread_key_t endKey; uintptr_t imgLo, imgHi, txtLo[8], txtHi[8], wrLo[8], wrHi[8]; int nTxt, nWr;
thread_local Th* me __attribute__((tls_model("initial-exec"))) = nullptr;

struct Quiet { Th* t; bool w; explicit Quiet(Th* x) : t(x), w(x->busy) { x->busy = true; } ~Quiet() { t->busy = w; } };
[[noreturn]] void park() { sem_post(&mainSem); while(true) pause(); }
[[noreturn]] void verdict(const str& k, const str& d) { if(verdictKind.empty()) { verdictKind = k; verdictDetail = d; } park(); }
bool runnable(Th* t) { return t->live && t->st == Th::RUN; }
Th* pickNext(int from, int to) { if(to >= 0) { Th* t = T[to % nT]; if(t->id != from && runnable(t)) return t; } for(int i = 1; i <= nT; i++) { Th* t = T[(from + i) % nT]; if(t->id != from && runnable(t)) return t; } return nullptr; }
void handTo(Th* t) { cur = t; t->budget = quantum; switches++; sem_post(&t->sem); }
void waitTurn(Th* t) { while(sem_wait(&t->sem)) {} }
void switchTo(Th* self, int to) { Th* n = pickNext(self->id, to); if(!n) { self->budget = quantum; return; } rep->state(hstr(str(self->op) + ">" + n->op)); handTo(n); waitTurn(self); }
str place(uintptr_t ra) { Dl_info di; if(dladdr((void*)ra, &di) && di.dli_sname) return fmt("%s+%lu", di.dli_sname, (unsigned long)(ra - (uintptr_t)di.dli_saddr)); return ra >= imgLo && ra < imgHi ? fmt("image+0x%lx", (unsigned long)(ra - imgLo)) : str("?"); }
void blockSelf(Th* self, const void* on, bool timed = false) {
    self->st = Th::BLOCKED; self->waitOn = on; self->timed = timed; self->timedOut = false;
    Th* n = pickNext(self->id, -1);
    if(!n) for(int i = 0; i < nT && !n; i++) if(T[i]->live && T[i]->st == Th::BLOCKED && T[i]->timed) { T[i]->st = Th::RUN; T[i]->timedOut = true; n = T[i]; }
    if(!n) { str d; for(int i = 0; i < nT; i++) if(T[i]->live && T[i]->st == Th::BLOCKED) d += fmt("thread %d in %s; ", T[i]->id, T[i]->op); verdict("deadlock", d + "nobody can continue"); }
    if(n != self) { handTo(n); waitTurn(self); }
}
void wake(const void* on, int max = 1 << 30) { for(int i = 0; i < nT && max > 0; i++) if(T[i]->live && T[i]->st == Th::BLOCKED && T[i]->waitOn == on) { T[i]->st = Th::RUN; T[i]->timed = false; max--; } }
void loadNext(Th* t, int c) { t->next[c] = t->pre[c].empty() ? ~0ull : t->pre[c].begin()->first; }
void setTF() { asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
void hit(Th* t, int c, uintptr_t ra) {
    auto it = t->pre[c].begin(); int to = it->second.first; u64 n = it->second.second; t->pre[c].erase(it); loadNext(t, c);
    rep->add(str("fault_preempted_") + CN[c]);
    if(c == INS) { t->tfLeft = n; t->tfTotal = 200000; t->tfTo = to; setTF(); return; }
    rep->state(hstr(t->op) ^ mix(ra - imgLo) ^ c);
    switchTo(t, to);
}
inline void count(Th* t, int c, uintptr_t ra) { if(__builtin_expect(++t->cnt[c] > t->next[c], 0)) { Quiet q(t); hit(t, c, ra); } }
void trap(int, siginfo_t*, void* u) {
    auto* uc = (ucontext_t*)u; Th* t = me; int e = errno; uintptr_t ip = uc->uc_mcontext.gregs[REG_RIP];
    if(!t || !t->tfTotal || --t->tfTotal == 0) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
    bool in = false; for(int i = 0; i < nTxt; i++) if(ip >= txtLo[i] && ip < txtHi[i]) in = true;
    if(!in || t->busy) return;
    if(t->tfLeft) { t->tfLeft--; return; }
    t->tfTotal = 0; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; Quiet q(t); rep->state(hstr(t->op) ^ mix(ip - imgLo) ^ INS); switchTo(t, t->tfTo); errno = e;
}
// ------------------------------------------------------------------ shadow memory, 8-byte granules
enum { WP, WA, RP, RAT };                          // plain write, atomic write, plain read, atomic read
struct Cell { uint32_t c[4][MT]{}; uint8_t m[4][MT]{}; };
struct Ent { u64 g = 0; int cell = -1; };
constexpr size_t HN = 1 << 18; Ent* ht = nullptr; vec<Cell>* cells = nullptr; size_t hUsed = 0;
size_t hslot(u64 g) { return (size_t)(g * 0x9e3779b97f4a7c15ull >> 40) & (HN - 1); }
Ent* lookup(u64 g, bool ins) { size_t i = hslot(g); while(ht[i].g) { if(ht[i].g == g) return &ht[i]; i = (i + 1) & (HN - 1); } if(!ins) return nullptr;
    if(hUsed > HN / 2) { memset(ht, 0, sizeof(Ent) * HN); cells->clear(); hUsed = 0; i = hslot(g); rep->add("shadow_resets"); }
    hUsed++; ht[i].g = g; ht[i].cell = cells->size(); cells->emplace_back(); return &ht[i]; }
void forget(void* p, size_t n) { if(!ht || !hUsed) return; Th* t = me; bool was = false; if(t) { was = t->busy; t->busy = true; } u64 a = (u64)p >> 3, b = ((u64)p + n + 7) >> 3; if(b - a > HN) { for(size_t i = 0; i < HN; i++) if(ht[i].g >= a && ht[i].g < b) (*cells)[ht[i].cell] = Cell{}; } else for(; a < b; a++) if(Ent* e = lookup(a, false)) (*cells)[e->cell] = Cell{}; if(t) t->busy = was; }
bool inWr(uintptr_t a) { for(int i = 0; i < nWr; i++) if(a >= wrLo[i] && a < wrHi[i]) return true; return false; }
bool inTxt(uintptr_t a) { return a >= imgLo && a < imgHi && !inWr(a); }
void granule(Th* t, u64 g, uint8_t mask, bool w, bool atomic, uintptr_t ra, const void* addr, bool sched) {
    Ent* e = lookup(g, true); Cell* c = &(*cells)[e->cell]; bool other = false;
    auto conflict = [&](int i, bool anyOrder) -> int { for(int k = 0; k < 4; k++) { if(k >= RP && !w) break; if(atomic && (k == WA || k == RAT) && !anyOrder) continue; if((c->m[k][i] & mask) && (anyOrder ? c->c[k][i] != 0 : c->c[k][i] > t->vc.c[i])) return k; } return -1; };
    if(sched) { for(int i = 0; i < nT; i++) if(i != t->id && conflict(i, true) >= 0) other = true;
        if(other && ++t->cnt[CONF] > t->next[CONF]) { hit(t, CONF, ra); e = lookup(g, true); c = &(*cells)[e->cell]; } }
    for(int i = 0; i < nT; i++) if(i != t->id) { int k = conflict(i, false); if(k < 0) continue;
        str where = inWr((uintptr_t)addr) ? fmt("variable at image+0x%lx", (unsigned long)((uintptr_t)addr - imgLo)) : str("shared memory");
        verdict("data-race", fmt("%s: %s%s by thread %d in %s (%s) and unsynchronised %s by thread %d in %s", where.c_str(), atomic ? "atomic " : "", w ? "write" : "read", t->id, t->op, place(ra).c_str(), k == WP ? "write" : k == WA ? "atomic write" : k == RP ? "read" : "atomic read", i, T[i]->op)); }
    int s = t->id, k = w ? (atomic ? WA : WP) : (atomic ? RAT : RP); uint32_t n = t->vc.c[s];
    if(c->c[k][s] == n) c->m[k][s] |= mask; else c->c[k][s] = n, c->m[k][s] = mask;
}
void track(Th* t, const void* a, size_t n, bool w, bool atomic, uintptr_t ra) {
    uintptr_t p = (uintptr_t)a; bool lib = p >= imgLo && p < imgHi;
    if(lib && !w && !inWr(p)) return;
    Quiet q(t);
    if(lib) { int c = w ? GW : GR; if(++t->cnt[c] > t->next[c]) hit(t, c, ra); }
    for(u64 g = p >> 3; g <= (p + n - 1) >> 3; g++) { uint8_t m = 0; for(int b = 0; b < 8; b++) { u64 x = g * 8 + b; if(x >= p && x < p + n) m |= 1 << b; } granule(t, g, m, w, atomic, ra, a, true); }
}
inline void acc(const void* a, size_t n, bool w, uintptr_t ra, bool atomic = false) {
    Th* t = me; if(__builtin_expect(!t || t->busy || !n, 1)) return;
    steps++;
    count(t, ANY, ra); count(t, INS, ra);
    if(--t->budget <= 0) { Quiet q(t); switchTo(t, -1); }
    if((char*)a >= t->slo && (char*)a < t->shi) return;
    track(t, a, n, w, atomic, ra);
}
// ------------------------------------------------------------------ synchronisation
struct Sync { int owner = -1, depth = 0, readers = 0; bool inProgress = false; VC rel, rrel; };
std::map<const void*,Sync>* syncs = nullptr; std::map<const void*,VC>* atoms = nullptr;
Sync& sy(const void* p) { return (*syncs)[p]; }
void tick(Th* t) { t->vc.c[t->id]++; }
void release(Th* t, VC& v) { v.join(t->vc); tick(t); }
void acquire(Th* t, const VC& v) { t->vc.join(v); }
void syncPoint(Th* t, uintptr_t ra) { if(++t->cnt[SYNC] > t->next[SYNC]) hit(t, SYNC, ra); else if(--t->budget <= 0) switchTo(t, -1); }
// switches just after a lock was taken, with a probability the plan sets
int lockPct = 0; Rng* lockRng = nullptr;
void afterLock(Th* t) { if(lockPct && (int)lockRng->below(100) < lockPct) { rep->add("switched_after_lock"); switchTo(t, -1); } }
int lockMutex(Th* t, const void* m, int kind, bool tryOnly, uintptr_t ra) {
    syncPoint(t, ra);
    while(true) { Sync& s = sy(m); if(s.owner < 0) { s.owner = t->id; s.depth = 1; acquire(t, s.rel); afterLock(t); return 0; }
        if(s.owner == t->id) { if(kind == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; } if(tryOnly) return EBUSY; if(kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
        if(tryOnly) return EBUSY;
        rep->add("blocked_on_lock"); blockSelf(t, m); }
}
int unlockMutex(Th* t, const void* m, uintptr_t ra) { Sync& s = sy(m); if(s.owner == t->id && --s.depth > 0) return 0; s.owner = -1; release(t, s.rel); wake(m); syncPoint(t, ra); return 0; }
template<class F> F real(const char* n) { static_assert(sizeof(F) == 8); return (F)dlsym(RTLD_NEXT, n); }
Th* sim() { Th* t = me; return t && active && !t->busy ? t : nullptr; }
int kindOf(pthread_mutex_t* m) { return m->__data.__kind & 3; }
// threads
void endThread(void*) { Th* t = me; if(!t) return; { Quiet q(t); t->st = Th::DONE; release(t, (*atoms)[t]); wake(t); } me = nullptr;
    if(t->aux) { t->live = false; Th* n = pickNext(t->id, -1); if(n) handTo(n); else { finished = t; sem_post(&mainSem); } }   // a thread the library started
    else { finished = t; sem_post(&mainSem); } }
void bounds(Th* t) { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* b; size_t n; pthread_attr_getstack(&a, &b, &n); pthread_attr_destroy(&a); t->slo = (char*)b; t->shi = t->slo + n; }
void* entry(void* v) { Th* t = (Th*)v; t->busy = true; me = t; waitTurn(t); bounds(t); pthread_setspecific(endKey, t); t->busy = false; t->ret = t->fn(t->arg); return t->ret; }
Th* newThread(void* (*fn)(void*), void* arg, Th* parent) { if(nT >= MT) return nullptr; Th* t = new Th; t->id = nT; t->fn = fn; t->arg = arg; sem_init(&t->sem, 0, 0); for(int c = 0; c < NCLS; c++) t->next[c] = ~0ull; if(parent) { t->vc = parent->vc; t->op = parent->op; t->aux = true; } t->vc.c[t->id] = 1; T[nT++] = t; t->live = true; return t; }
}
// ------------------------------------------------------------------ hooks called by the instrumented library
HK void __tsan_init() {}
HK void __tsan_func_entry(void*) {}
HK void __tsan_func_exit() {}
HK void __tsan_ignore_thread_begin() {}
HK void __tsan_ignore_thread_end() {}
#define RW(N) HK void __tsan_read##N(void* a) { acc(a, N, false, RA); } HK void __tsan_write##N(void* a) { acc(a, N, true, RA); } \
  HK void __tsan_unaligned_read##N(void* a) { acc(a, N, false, RA); } HK void __tsan_unaligned_write##N(void* a) { acc(a, N, true, RA); } \
  HK void __tsan_volatile_read##N(void* a) { acc(a, N, false, RA); } HK void __tsan_volatile_write##N(void* a) { acc(a, N, true, RA); } \
  HK void __tsan_unaligned_volatile_read##N(void* a) { acc(a, N, false, RA); } HK void __tsan_unaligned_volatile_write##N(void* a) { acc(a, N, true, RA); } \
  HK void __tsan_read_write##N(void* a) { acc(a, N, false, RA); acc(a, N, true, RA); } HK void __tsan_unaligned_read_write##N(void* a) { acc(a, N, false, RA); acc(a, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
HK void __tsan_vptr_update(void** a, void*) { acc(a, 8, true, RA); }
HK void __tsan_vptr_read(void** a) { acc(a, 8, false, RA); }
HK void __tsan_read_range(void* a, size_t n) { acc(a, n, false, RA); }
HK void __tsan_write_range(void* a, size_t n) { acc(a, n, true, RA); }
HK void* __tsan_memcpy(void* d, const void* s, size_t n) { acc(s, n, false, RA); acc(d, n, true, RA); return memcpy(d, s, n); }
HK void* __tsan_memmove(void* d, const void* s, size_t n) { acc(s, n, false, RA); acc(d, n, true, RA); return memmove(d, s, n); }
HK void* __tsan_memset(void* d, int c, size_t n) { acc(d, n, true, RA); return memset(d, c, n); }
namespace {
inline Th* atomic(const volatile void* a, size_t n, bool w, uintptr_t ra) { Th* t = me; if(!t || t->busy || !active) return nullptr; acc((const void*)a, n, w, ra, true); Quiet q(t); syncPoint(t, ra); return t; }
void aload(Th* t, const volatile void* a, int mo) { if(!t) return; Quiet q(t); VC& v = (*atoms)[(const void*)a]; if(mo == 1 || mo == 2 || mo >= 4) acquire(t, v); else t->acqP.join(v); }
void astore(Th* t, const volatile void* a, int mo, bool rmw) { if(!t) return; Quiet q(t); VC& v = (*atoms)[(const void*)a]; if(!rmw) v = VC{}; v.join(t->relF); if(mo >= 3) release(t, v); }
}
#define AT(N, TY) \
 HK TY __tsan_atomic##N##_load(const volatile TY* a, int mo) { Th* t = atomic(a, N/8, false, RA); TY r = *a; aload(t, a, mo); return r; } \
 HK void __tsan_atomic##N##_store(volatile TY* a, TY v, int mo) { Th* t = atomic(a, N/8, true, RA); astore(t, a, mo, false); *a = v; } \
 HK TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int mo) { Th* t = atomic(a, N/8, true, RA); aload(t, a, mo); TY r = *a; *a = v; astore(t, a, mo, true); return r; } \
 HK TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int mo) { Th* t = atomic(a, N/8, true, RA); aload(t, a, mo); TY r = *a; *a = r + v; astore(t, a, mo, true); return r; } \
 HK TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int mo) { Th* t = atomic(a, N/8, true, RA); aload(t, a, mo); TY r = *a; *a = r - v; astore(t, a, mo, true); return r; } \
 HK TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int mo) { Th* t = atomic(a, N/8, true, RA); aload(t, a, mo); TY r = *a; *a = r & v; astore(t, a, mo, true); return r; } \
 HK TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int mo) { Th* t = atomic(a, N/8, true, RA); aload(t, a, mo); TY r = *a; *a = r | v; astore(t, a, mo, true); return r; } \
 HK TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int mo) { Th* t = atomic(a, N/8, true, RA); aload(t, a, mo); TY r = *a; *a = r ^ v; astore(t, a, mo, true); return r; } \
 HK TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int mo) { Th* t = atomic(a, N/8, true, RA); aload(t, a, mo); TY r = *a; *a = ~(r & v); astore(t, a, mo, true); return r; } \
 HK int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int fm) { Th* t = atomic(a, N/8, true, RA); TY r = *a; if(r == *c) { aload(t, a, mo); *a = v; astore(t, a, mo, true); return 1; } aload(t, a, fm); *c = r; return 0; } \
 HK int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int fm) { Th* t = atomic(a, N/8, true, RA); TY r = *a; if(r == *c) { aload(t, a, mo); *a = v; astore(t, a, mo, true); return 1; } aload(t, a, fm); *c = r; return 0; } \
 HK TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int fm) { Th* t = atomic(a, N/8, true, RA); TY r = *a; if(r == c) { aload(t, a, mo); *a = v; astore(t, a, mo, true); } else aload(t, a, fm); return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
HK void __tsan_atomic_thread_fence(int mo) { Th* t = me; if(!t || t->busy || !active) return; Quiet q(t); if(mo == 1 || mo == 2 || mo >= 4) acquire(t, t->acqP); if(mo >= 3) { t->relF = t->vc; tick(t); } }
HK void __tsan_atomic_signal_fence(int) {}
// ------------------------------------------------------------------ the synchronisation primitives, under the simulated scheduler
HK int pthread_mutex_lock(pthread_mutex_t* m) { if(Th* t = sim()) { Quiet q(t); return lockMutex(t, m, kindOf(m), false, RA); } static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f ? f(m) : 0; }
HK int pthread_mutex_trylock(pthread_mutex_t* m) { if(Th* t = sim()) { Quiet q(t); return lockMutex(t, m, kindOf(m), true, RA); } static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
HK int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { if(Th* t = sim()) { Quiet q(t); return lockMutex(t, m, kindOf(m), false, RA); } static auto f = real<int(*)(pthread_mutex_t*, const timespec*)>("pthread_mutex_timedlock"); return f(m, ts); }
HK int pthread_mutex_unlock(pthread_mutex_t* m) { if(Th* t = sim()) { Quiet q(t); return unlockMutex(t, m, RA); } static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f ? f(m) : 0; }
HK int pthread_spin_lock(pthread_spinlock_t* m) { if(Th* t = sim()) { Quiet q(t); return lockMutex(t, (const void*)m, 0, false, RA); } static auto f = real<int(*)(pthread_spinlock_t*)>("pthread_spin_lock"); return f(m); }
HK int pthread_spin_trylock(pthread_spinlock_t* m) { if(Th* t = sim()) { Quiet q(t); return lockMutex(t, (const void*)m, 0, true, RA); } static auto f = real<int(*)(pthread_spinlock_t*)>("pthread_spin_trylock"); return f(m); }
HK int pthread_spin_unlock(pthread_spinlock_t* m) { if(Th* t = sim()) { Quiet q(t); return unlockMutex(t, (const void*)m, RA); } static auto f = real<int(*)(pthread_spinlock_t*)>("pthread_spin_unlock"); return f(m); }
namespace {
int rd(Th* t, const void* m, bool tryOnly, uintptr_t ra) { Quiet q(t); syncPoint(t, ra); while(true) { Sync& s = sy(m); if(s.owner < 0) { s.readers++; acquire(t, s.rel); afterLock(t); return 0; } if(tryOnly) return EBUSY; rep->add("blocked_on_lock"); blockSelf(t, m); } }
int wrl(Th* t, const void* m, bool tryOnly, uintptr_t ra) { Quiet q(t); syncPoint(t, ra); while(true) { Sync& s = sy(m); if(s.owner < 0 && !s.readers) { s.owner = t->id; acquire(t, s.rel); acquire(t, s.rrel); afterLock(t); return 0; } if(tryOnly) return EBUSY; rep->add("blocked_on_lock"); blockSelf(t, m); } }
}
#define RWL(NAME, BODY) HK int NAME(pthread_rwlock_t* m) { if(Th* t = sim()) { BODY } static auto f = real<int(*)(pthread_rwlock_t*)>(#NAME); return f(m); }
RWL(pthread_rwlock_rdlock, return rd(t, m, false, RA);) RWL(pthread_rwlock_tryrdlock, return rd(t, m, true, RA);)
RWL(pthread_rwlock_wrlock, return wrl(t, m, false, RA);) RWL(pthread_rwlock_trywrlock, return wrl(t, m, true, RA);)
RWL(pthread_rwlock_unlock, Quiet q(t); Sync& s = sy(m); if(s.owner == t->id) { s.owner = -1; release(t, s.rel); } else { if(s.readers > 0) s.readers--; release(t, s.rrel); } wake(m); syncPoint(t, RA); return 0;)
namespace { int cwait(Th* t, const void* c, pthread_mutex_t* m, bool timed, uintptr_t ra) { Quiet q(t); unlockMutex(t, m, ra); rep->add("blocked_on_condition"); blockSelf(t, c, timed); bool to = t->timedOut; acquire(t, sy(c).rel); lockMutex(t, m, kindOf(m), false, ra); return to ? ETIMEDOUT : 0; } }
HK int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if(Th* t = sim()) return cwait(t, c, m, false, RA); static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
HK int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if(Th* t = sim()) return cwait(t, c, m, true, RA); static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait"); return f(c, m, ts); }
HK int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { if(Th* t = sim()) return cwait(t, c, m, true, RA); static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); return f(c, m, k, ts); }
HK int pthread_cond_signal(pthread_cond_t* c) { if(Th* t = sim()) { Quiet q(t); release(t, sy(c).rel); wake(c, 1); syncPoint(t, RA); return 0; } static auto f = real<int(*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
HK int pthread_cond_broadcast(pthread_cond_t* c) { if(Th* t = sim()) { Quiet q(t); release(t, sy(c).rel); wake(c); syncPoint(t, RA); return 0; } static auto f = real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
HK int pthread_once(pthread_once_t* o, void (*fn)()) {
    Th* t = sim(); if(!t) { if(*o == 2) return 0; static auto f = real<int(*)(pthread_once_t*, void(*)())>("pthread_once"); return f(o, fn); }
    { Quiet q(t); syncPoint(t, RA); while(true) { if(*o == 2) { acquire(t, sy(o).rel); return 0; } Sync& s = sy(o); if(!s.inProgress) { s.inProgress = true; s.owner = t->id; break; } if(s.owner == t->id) verdict("deadlock", fmt("thread %d in %s: recursive one-time initialisation", t->id, t->op)); rep->add("blocked_on_initialisation"); blockSelf(t, o); } }
    try { fn(); } catch(...) { Quiet q(t); sy(o).inProgress = false; wake(o); throw; }
    Quiet q(t); *o = 2; Sync& s = sy(o); s.inProgress = false; s.owner = -1; release(t, s.rel); wake(o); syncPoint(t, RA); return 0;
}
HK int __cxa_guard_acquire(long long* g) {
    if(*(uint8_t*)g) { if(Th* t = sim()) { Quiet q(t); acquire(t, sy(g).rel); } return 0; }
    Th* t = sim(); if(!t) return 1;
    Quiet q(t); syncPoint(t, RA);
    while(true) { if(*(uint8_t*)g) { acquire(t, sy(g).rel); return 0; } Sync& s = sy(g); if(!s.inProgress) { s.inProgress = true; s.owner = t->id; acquire(t, s.rel); return 1; }
        if(s.owner == t->id) verdict("deadlock", fmt("thread %d in %s: recursive initialisation of a static variable", t->id, t->op)); rep->add("blocked_on_initialisation"); blockSelf(t, g); }
}
HK void __cxa_guard_release(long long* g) { *(uint8_t*)g = 1; if(Th* t = sim()) { Quiet q(t); Sync& s = sy(g); s.inProgress = false; s.owner = -1; release(t, s.rel); (*atoms)[g].join(s.rel); wake(g); syncPoint(t, RA); } }
HK void __cxa_guard_abort(long long* g) { if(Th* t = sim()) { Quiet q(t); Sync& s = sy(g); s.inProgress = false; s.owner = -1; wake(g); } }
HK int sched_yield() { if(Th* t = sim()) { Quiet q(t); switchTo(t, -1); } return 0; }
HK int nanosleep(const timespec* a, timespec* b) { if(Th* t = sim()) { Quiet q(t); switchTo(t, -1); return 0; } static auto f = real<int(*)(const timespec*, timespec*)>("nanosleep"); return f(a, b); }
HK int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) { if(Th* t = sim()) { Quiet q(t); switchTo(t, -1); return 0; } static auto f = real<int(*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep"); return f(c, fl, a, b); }
HK int usleep(useconds_t u) { if(Th* t = sim()) { Quiet q(t); switchTo(t, -1); return 0; } timespec ts{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
HK long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    Th* t = sim();
    if(t && n == SYS_futex) { int op = b & 127; Quiet q(t);
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { syncPoint(t, RA); if(*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; } rep->add("blocked_on_futex"); blockSelf(t, (void*)a, d != 0); if(t->timedOut) { errno = ETIMEDOUT; return -1; } return 0; }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake((void*)a, (int)c); syncPoint(t, RA); return 0; } }
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if(r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
HK int pthread_create(pthread_t* p, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    static auto f = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create");
    Th* s = sim(); if(!s) return f(p, at, fn, arg);
    Quiet q(s); Th* t = newThread(fn, arg, s); if(!t) return EAGAIN; tick(s); rep->add("threads_started_by_library");
    int r = f(&t->t, at, entry, t); if(r) { t->live = false; return r; } *p = t->t; syncPoint(s, RA); return 0;
}
HK int pthread_join(pthread_t p, void** ret) {
    static auto f = real<int(*)(pthread_t, void**)>("pthread_join");
    Th* s = sim(); if(!s) return f(p, ret);
    Quiet q(s); for(int i = 0; i < nT; i++) if(T[i]->aux && pthread_equal(T[i]->t, p)) { while(T[i]->st != Th::DONE) blockSelf(s, T[i]); acquire(s, (*atoms)[T[i]]); return f(p, ret); }
    return f(p, ret);
}
namespace {
// ------------------------------------------------------------------ plans
u64 logu(Rng& r, int bits) { int b = r.below(bits + 1); return r.below(1ull << b); }
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 1); Plan p; int nt = r.p(.6) ? 2 : r.range(2, thorough ? 6 : 4);
    p.push_back(fmt("!world host=%d threads=%d quantum=%llu", (int)r.below(16), nt, (unsigned long long)(1ull << r.range(12, 22))));
    static const vec<str> light = opNamesWhere("light"), al = opNamesWhere("alloc"), mid = opNamesWhere("mid"), cbk = opNamesWhere("callback"), heavy = opNamesWhere("heavy"), sigs = opNamesWhere("sig");
    auto any = [&] { switch(r.weighted({4, 3, 2, 2, 2, 2})) { case 0: return r.pick(opNames()); case 1: return r.pick(light); case 2: return r.pick(al); case 3: return r.pick(mid); case 4: return r.pick(cbk); default: return r.pick(heavy); } };
    int style = r.below(5); str same = any(); vec<str> fam; if(style == 4) { bool hs = r.p(.5); while((int)fam.size() < nt) { str o = r.pick(sigs); if(!hs || std::find(heavy.begin(), heavy.end(), o) != heavy.end()) fam.push_back(o); } } u64 few = r.p(.5) ? 4 : 1000000000; u64 ss = r.next() % 1000000000; bool hv = opNamesWhere("heavy").end() != std::find(heavy.begin(), heavy.end(), same);
    for(int t = 0; t < nt; t++) { int n = style == 4 ? 1 : hv ? 1 : r.p(.6) ? 1 : r.range(1, thorough ? 5 : 3);
        for(int i = 0; i < n; i++) { str op = style == 4 ? fam[t] : style < 3 && (i == 0 || r.p(.5)) ? same : any(); u64 s = (style == 0 || (style == 1 && r.p(.5))) && op == same ? ss : r.next() % (style == 4 ? few : 1000000000); p.push_back(fmt("call t=%d op=%s s=%llu share=%d", t, op.c_str(), (unsigned long long)s, (int)(style == 0 ? 1 : r.p(.2)))); if(op != "alias" && op != "bn_div" && style <= 1 && r.p(.25)) p.back() += fmt(" mut=%llu", (unsigned long long)r.range(1, 1000000)); } }
    if(r.p(.5)) p.push_back(fmt("locks pct=%d s=%llu", (int)r.pick(vec<int>{10, 30, 60}), (unsigned long long)(r.next() % 1000000000)));
    int np = r.range(1, thorough ? 24 : 12);
    for(int i = 0; i < np; i++) { int c = r.weighted({4, 3, 2, 3, 3, 1, 2, 2}); u64 k = c == ANY || c == INS ? logu(r, 20) : c == GR ? logu(r, 14) : c == GW || c == CONF || c == SYNC ? logu(r, 6) : logu(r, 5);
        str l = fmt("pre cls=%s t=%d k=%llu to=%d", CN[c], (int)r.below(nt), (unsigned long long)k, (int)r.below(nt)); if(c == INS) l += fmt(" n=%llu", (unsigned long long)logu(r, 12)); p.push_back(l); }
    return p;
}
struct Job { str op; u64 s; bool share; AB a; Bytes ser; void* handle = nullptr; str base; Res r; bool done = false; };
struct Body { const Host* h; vec<Job> jobs; Th* t = nullptr; };
void onYield(void*) { Th* t = me; if(!t || t->busy) return; count(t, CB, 0); }
void* threadMain(void* v) {
    Body& b = *(Body*)v; Th* t = me; BlsHooks hk{}; hk.yield = onYield;
    for(auto& j : b.jobs) {
        t->op = j.op.c_str(); const Host& h = *b.h; void* a = j.handle;
        if(!a) a = h.api->prepare(h.op(j.op), j.ser.data(), j.ser.size(), &hk);      // its own arguments, decoded on this thread
        static thread_local uint8_t* out; { Quiet q(t); out = (uint8_t*)malloc(1 << 20); }
        size_t n = 0; bool cbOp = j.s & 1; BlsHooks none{};
        int st = a ? h.api->exec(a, cbOp ? &hk : &none, out, 1 << 20, &n) : BLS_NO_OP;
        { Quiet q(t); j.r.st = st; j.r.raw.assign(out, out + n); free(out); if(a && !j.handle) { j.r.intact = h.api->intact(a); h.api->destroy(a); } j.done = true; }
    }
    t->op = "(finished)"; return nullptr;
}
void exec(const Plan& plan, Report& R) {
    aloneInit(); rep = &R;
    Ln w(plan[0]); const Host& h = hosts[w.n("host") % hosts.size()]; int nt = w.n("threads"); quantum = w.n("quantum", 1 << 20);
    imgLo = imgHi = 0; nTxt = nWr = 0;
    struct It { const Host* h; } it{&h};
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* v) { const Host* h = ((It*)v)->h; if(!i->dlpi_name || h->path != i->dlpi_name) return 0; imgLo = ~0ull;
        for(int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if(p.p_type != PT_LOAD) continue; uintptr_t a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz; imgLo = std::min(imgLo, a); imgHi = std::max(imgHi, b); if((p.p_flags & PF_X) && nTxt < 8) { txtLo[nTxt] = a; txtHi[nTxt++] = b; } if((p.p_flags & PF_W) && nWr < 8) { wrLo[nWr] = a; wrHi[nWr++] = b; } } return 1; }, &it);
    vec<Body> bodies(nt); for(auto& b : bodies) b.h = &h;
    std::map<str,void*> shared; std::map<str,str> base; vec<str> notes;
    for(auto& s : plan) { Ln l(s); if(l.verb != "call") continue; str op = l.s("op"); if(h.op(op) < 0) continue; Job j; j.op = op; j.s = l.n("s"); j.share = l.n("share"); j.a = makeOp(op, j.s, l.n("mut")).a; j.ser = j.a.ser();
        str k = op + "/" + std::to_string(j.s) + "/" + std::to_string(l.n("mut")); if(!base.count(k)) base[k] = aloneCall(h, op, j.a); j.base = base[k];
        if(j.share) { if(!shared.count(k)) shared[k] = h.api->prepare(h.op(op), j.ser.data(), j.ser.size(), nullptr); j.handle = shared[k]; }
        bodies[l.n("t") % nt].jobs.push_back(std::move(j)); }
    // the threads
    ht = (Ent*)calloc(HN, sizeof(Ent)); cells = new vec<Cell>; cells->reserve(1 << 16); hUsed = 0; syncs = new std::map<const void*,Sync>; atoms = new std::map<const void*,VC>;
    sem_init(&mainSem, 0, 0); pthread_key_create(&endKey, endThread);
    struct sigaction sa{}; sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr);
    for(int i = 0; i < nt; i++) { bodies[i].t = newThread(threadMain, &bodies[i], nullptr); }
    for(auto& s : plan) { Ln l(s); if(l.verb != "pre") continue; Th* t = T[l.n("t") % nt]; for(int c = 0; c < NCLS; c++) if(l.s("cls") == CN[c]) t->pre[c][l.n("k")] = {(int)l.n("to"), l.n("n")}; }
    for(int i = 0; i < nt; i++) { for(int c = 0; c < NCLS; c++) loadNext(T[i], c); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20); static auto f = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create"); if(f(&T[i]->t, &at, entry, T[i])) R.fail("harness", "pthread_create"); }
    for(auto& s : plan) { Ln l(s); if(l.verb == "locks") { lockPct = l.n("pct"); lockRng = new Rng(l.n("s"), 7); } }
    note(fmt("%s, %d threads running %s", h.name.c_str(), nt, bodies[0].jobs.empty() ? "-" : bodies[0].jobs[0].op.c_str()));
    mem::onAlloc = [](void* p, size_t n) { Th* t = me; if(!active) return; forget(p, n); if(t && !t->busy) { Quiet q(t); if(++t->cnt[ALLOC] > t->next[ALLOC]) { hit(t, ALLOC, 0); } } };
    active = true; handTo(T[0]);
    static auto joinReal = real<int(*)(pthread_t, void**)>("pthread_join");
    int left = nt; while(true) { while(sem_wait(&mainSem)) {} if(!verdictKind.empty()) break; Th* f = finished; finished = nullptr; if(f && !f->aux) { joinReal(f->t, nullptr); f->live = false; left--; }
        Th* n = pickNext(f ? f->id : 0, -1);
        if(!n && f && runnable(f)) n = f;
        if(!n) { str d; for(int i = 0; i < nT; i++) if(T[i]->live && T[i]->st == Th::BLOCKED) { if(T[i]->timed) { T[i]->st = Th::RUN; T[i]->timedOut = true; n = T[i]; break; } d += fmt("thread %d in %s; ", i, T[i]->op); }
            if(!n) { if(!d.empty()) { verdictKind = "deadlock"; verdictDetail = d + "every other thread has finished"; } break; } }
        handTo(n); }
    active = false; mem::onAlloc = nullptr;
    R.add("switches", switches); R.add("scheduling_points", steps);
    if(!verdictKind.empty()) { R.see(verdictKind); throw Violation{verdictKind, h.name + ": " + verdictDetail}; }
    for(auto& b : bodies) for(auto& j : b.jobs) {
        R.add("lib_calls"); if(!j.done) R.fail("harness", "call not finished");
        str c = j.r.canon(); R.see(c);
        if(c != j.base) { size_t d = 0; while(d < c.size() && d < j.base.size() && c[d] == j.base[d]) d++; R.fail("wrong-result", fmt("%s: %s s=%llu on thread %d of %d: differs from position %zu: ..%s, alone ..%s", h.name.c_str(), j.op.c_str(), (unsigned long long)j.s, (int)(&b - &bodies[0]), nt, d, c.substr(d > 8 ? d - 8 : 0, 90).c_str(), j.base.substr(d > 8 ? d - 8 : 0, 90).c_str())); }
        if(!j.r.intact) R.fail("arguments-modified", j.op); }
    for(auto& s : shared) if(s.second && !h.api->intact(s.second)) R.fail("arguments-modified", s.first);
    R.see(switches); R.see(steps);
}
Reg reg({"C01", gen, exec, {}, [] { pool(); opNames(); }});
}
