// C16: what a caller can be made to spend. Simulated time (executed basic blocks), memory requested, memory held and
// stack used are metered for single calls with ordinary and hostile arguments, and for the same call with four times as
// much of the same argument: the expense may grow with the size of the arguments, not faster, and not with their content.
#include "net.hpp"
#include <algorithm>
#include <ucontext.h>
#include <sys/mman.h>
static u64 ticks = 0;
extern "C" {
void __sanitizer_cov_trace_pc() { ticks++; }
// what the C library would copy, fill or compare for the program takes time as well
void* memcpy(void* d, const void* s, size_t n) { ticks += n / 32; void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) { ticks += n / 32; void* r = d; if((uintptr_t)d - (uintptr_t)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); else { char* e = (char*)d + n - 1; const char* f = (const char*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(e), "+S"(f), "+c"(n) :: "memory"); } return r; }
void* memset(void* d, int c, size_t n) { ticks += n / 32; void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
}
namespace {
constexpr size_t STACK = 4 << 20; constexpr u64 STACKLIMIT = 256 << 10;
struct Use { u64 time = 0, bytes = 0, peak = 0, stack = 0; };
struct Meter { u64 t0 = 0, t1 = 0, cancelAt = ~0ull, calls = 0; };
char* stk; char* low; ucontext_t mainC, fibC; std::function<void()> job;
char* baseSp;
void tramp() { job(); swapcontext(&fibC, &mainC); }
void onBegin(void* v) { char here; baseSp = &here; Meter& m = *(Meter*)v; m.t0 = ticks; mem::ctl.armed = true; }
void onEnd(void* v) { mem::ctl.armed = false; ((Meter*)v)->t1 = ticks; }
void onYield(void* v) { Meter& m = *(Meter*)v; if(m.calls++ == m.cancelAt) throw CancelToken{1, ~1ull}; }
Res meter(const Host& h, const str& op, const AB& a, Use& u, u64 cancelAt = ~0ull) {
    if(!stk) { char* m = (char*)mmap(0, STACK + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(m == MAP_FAILED) abort(); mprotect(m + 65536, STACK, PROT_READ | PROT_WRITE); stk = m + 65536; low = stk + STACK - (1 << 20); memset(low, 0xa5, 1 << 20); }
    mem::reset(); mem::ctl.track = true; Meter m; m.cancelAt = cancelAt; BlsHooks hk{}; hk.ctx = &m; hk.begin = onBegin; hk.end = onEnd; hk.yield = cancelAt == ~0ull ? nullptr : onYield; Res r; std::exception_ptr ex;
    job = [&] { try { r = call(h, op, a, &hk); } catch(...) { ex = std::current_exception(); } };
    getcontext(&fibC); fibC.uc_stack.ss_sp = stk; fibC.uc_stack.ss_size = STACK; fibC.uc_link = nullptr; makecontext(&fibC, tramp, 0); swapcontext(&mainC, &fibC); mem::ctl.armed = false; if(ex) std::rethrow_exception(ex);
    // below the painted part pages are zero until touched: walk down while they are not
    char* p = low;
    u64 deep; { bool below = false; for(char* q = low - 4096; q >= stk; q -= 4096) { bool z = true; for(int i = 0; i < 4096; i++) if(q[i]) { z = false; break; } if(z) break; below = true; p = q; } if(below) deep = baseSp - p; else { p = low; while(*p == (char)0xa5) p++; deep = baseSp - p; } }
    u = {m.t1 - m.t0, mem::ctl.bytes, mem::ctl.peak, deep}; char* top = stk + STACK; size_t used = std::min<size_t>(1 << 20, top - std::max(p, low)); memset(top - used, 0xa5, used); if(p < low) memset(p, 0, low - p);
    return r;
}
u64 sizeOf(const str& op, const AB& a) { u64 n = 64; for(auto& x : a.p1) n += x.size(); for(auto& x : a.p2) n += x.size(); n += 32 * a.sc.size() + 48 * a.f.size() + a.in.size(); for(auto& x : a.m) n += x.size() + 8; if((op.compare(0, 4, "hkdf") == 0 || op == "xmd_sh256") && a.in.size()) n += std::min<u64>(a.in[0], 8192); return n; }
bool metered(const str& n) { return n != "alias" && n != "raw" && n != "rawbulk"; }   // these choose among operations by an argument
// ------------------------------------------------------------------ hostile content of the same form and size
L6 badLimbs(Rng& r) { L6 x{}; switch(r.below(5)) { case 0: break; case 1: x = ref::PP; ref::subto(x, L6{1}); break; case 2: x = L6{1}; break; case 3: x = ref::Fp::one().d; break; default: return randLimbs(r); } return x; }
G1 bad1(Rng& r, int k) { const Pool& p = pool(); switch(k) { case 0: return G1{}; case 1: return p.tors1[r.below(p.tors1.size())]; case 2: return p.p1[0]; case 3: return off1(r, p.p1[r.below(8)]); case 4: return G1{Fp{}, Fp{}, Fp::one()}; default: return p.p1[r.below(Pool::N)].neg(); } }
G2 bad2(Rng& r, int k) { const Pool& p = pool(); switch(k) { case 0: return G2{}; case 1: return p.tors2[r.below(p.tors2.size())]; case 2: return p.p2[0]; case 3: return off2(r, p.p2[r.below(8)]); case 4: return G2{Fp2{}, Fp2{}, Fp2::one()}; default: return p.p2[r.below(Pool::N)].neg(); } }
void hostile(AB& a, u64 seed, const str& op) {
    Rng r(seed, 161); int k1 = r.below(6), k2 = r.below(6), km = r.below(6), ks = r.below(6); bool all = r.p(.6);
    for(auto& x : a.p1) if(all || r.p(.5)) x = ref::jacbe(bad1(r, k1)); for(auto& x : a.p2) if(all || r.p(.5)) x = ref::jacbe(bad2(r, k2));
    for(auto& s : a.sc) if(all || r.p(.5)) { switch(ks) { case 0: s = Sc{}; break; case 1: for(auto& l : s) l = ~0ull; break; case 2: s = ref::Rr; break; case 3: s = Sc{1}; break; case 4: s = Sc{0, 0, 0, 1ull << 63}; break; default: s = ref::Rr; ref::subto(s, Sc{1}); } }
    if(op.find("frob") != str::npos && r.p(.7)) a.in[0] = r.p(.5) ? 12 + r.below(100) : 50000 + r.below(100000);   // the map has order 12
    if(op == "bn_div" && a.sc.size() == 3) a.sc[2] = ref::Rr;
    for(auto& x : a.f) if(all || r.p(.5)) x = badLimbs(r);
    for(auto& b : a.m) if(all || r.p(.5)) switch(km) { case 0: for(auto& c : b) c = 0; break; case 1: for(auto& c : b) c = 0xff; break; case 2: for(auto& c : b) c = 'f'; break; case 3: for(auto& c : b) c = 'z'; break; case 4: for(auto& c : b) c = r.next(); break; default: if(b.size()) b[0] ^= 0x80; }
}
// ------------------------------------------------------------------ arguments of any size
struct Grow { const char* op; int modes; int lo, hi, unit; };   // unit: bytes of one element, about
const Grow GROW[] = {
    {"aggregate_public_keys", 6, 40, 2000, 144}, {"aggregate_public_keys_mask", 6, 40, 2000, 144}, {"aggregate_public_keys_all", 6, 40, 2000, 144}, {"aggregate_signatures", 6, 40, 1200, 288}, {"aggregate_signatures_mask", 6, 40, 1200, 288}, {"aggregate_signatures_all", 6, 40, 1200, 288}, {"aggregate_secret_keys", 6, 40, 6000, 32},
    {"g1_weightedSum", 18, 40, 3000, 176}, {"g2_weightedSum", 18, 40, 1500, 320}, {"pairing", 6, 16, 60, 432}, {"miller_loop", 6, 16, 60, 432}, {"aggregate_verify", 10, 200, 2000, 80}, {"aggregate_verify_few", 10, 4, 10, 80}, {"pop_fast_aggregate_verify", 6, 40, 2000, 144},
    {"hexToBytes", 9, 2000, 120000, 1}, {"bytesToHex", 9, 2000, 100000, 1}, {"xmd_sh256", 9, 2000, 120000, 1}, {"from_message", 9, 20000, 120000, 1}, {"sign", 9, 20000, 120000, 1}, {"verify", 9, 20000, 120000, 1}, {"hkdf256_hmac", 9, 2000, 120000, 1}, {"hkdf256_hmac_key", 9, 2000, 120000, 1}, {"hkdf256_extract", 9, 2000, 120000, 1}, {"hkdf256_expand", 9, 2000, 60000, 1}, {"hkdf256_expand_out", 1, 500, 2040, 1}, {"secret_key", 9, 2000, 120000, 1}, {"ikm_to_lamport_sk", 9, 2000, 60000, 1}, {"hkdf256_extract_expand", 9, 2000, 60000, 1}};
const Grow* growOf(const str& n) { for(auto& g : GROW) if(n == g.op) return &g; return nullptr; }
Bytes text(Rng& r, int mode, size_t n) { Bytes b(n); switch(mode) { case 0: for(auto& c : b) c = r.next() >> 24; break; case 1: break; case 2: for(auto& c : b) c = 0xff; break; case 3: { static const char* d = "0123456789abcdef"; for(auto& c : b) c = d[r.below(16)]; break; } case 5: for(auto& c : b) c = '0'; break; case 6: for(auto& c : b) c = 'f'; break; case 7: { uint8_t v = r.next(); for(auto& c : b) c = v; break; } case 8: for(size_t i = 0; i < n; i++) b[i] = i < n / 2 ? '0' : '1' + i % 9; break; default: for(size_t i = 0; i < n; i++) b[i] = "0x"[i & 1]; } return b; }
str growArgs(const Grow& g, AB& a, u64 seed, int mode, size_t n) {
    Rng r(seed, 162); const Pool& p = pool(); str op = g.op;
    auto pt1 = [&](size_t i) { switch(mode % 6) { case 0: return p.p1[r.below(Pool::N)]; case 1: return p.p1[0]; case 2: return G1{}; case 3: return i & 1 ? p.p1[1].neg() : p.p1[1]; case 4: return p.tors1[r.below(p.tors1.size())]; default: return i % 7 ? G1{} : p.p1[r.below(Pool::N)]; } };
    auto pt2 = [&](size_t i) { switch(mode % 6) { case 0: return p.p2[r.below(Pool::N)]; case 1: return p.p2[0]; case 2: return G2{}; case 3: return i & 1 ? p.p2[1].neg() : p.p2[1]; case 4: return p.tors2[r.below(p.tors2.size())]; default: return i % 7 ? G2{} : p.p2[r.below(Pool::N)]; } };
    auto scl = [&](size_t i) { Sc c{}; switch(mode / 6) { case 0: return randSk(r); case 1: for(auto& l : c) l = ~0ull; return c; default: return i % 5 ? c : randScalar(r); } };
    if(op.find("public_keys") != str::npos) { for(size_t i = 0; i < n; i++) a.P(pt1(i)).I(r.p(.7)); return op; }
    if(op.find("aggregate_signatures") != str::npos) { for(size_t i = 0; i < n; i++) a.Q(pt2(i)).I(r.p(.7)); return op; }
    if(op == "aggregate_secret_keys") { for(size_t i = 0; i < n; i++) a.S(mode == 0 ? randSk(r) : mode == 1 ? Sc{} : Sc{~0ull, ~0ull, ~0ull, 0x3fffffffffffffffull}); return op; }
    if(op == "g1_weightedSum") { for(size_t i = 0; i < n; i++) a.P(pt1(i)).S(scl(i)); return op; }
    if(op == "g2_weightedSum") { for(size_t i = 0; i < n; i++) a.Q(pt2(i)).S(scl(i)); return op; }
    if(op == "pairing" || op == "miller_loop") { for(size_t i = 0; i < n; i++) a.P(pt1(i)).Q(pt2(i)); return op; }
    if(op == "pop_fast_aggregate_verify") { for(size_t i = 0; i < n; i++) a.P(pt1(i)); a.M(p.msg[1]).Q(p.sig[1][0]); return op; }
    if(op == "aggregate_verify" || op == "aggregate_verify_few") {   // many messages judged for repetition only (the first key is the identity); few of them verified
        bool few = op != "aggregate_verify"; a.I(1); Bytes pre = r.bytes(40); for(size_t i = 0; i < n; i++) { a.P(few ? p.p1[i % Pool::N] : i ? p.p1[0] : G1{}); Bytes m(8); u64 v = mode == 2 ? i : mode == 3 ? n - i : mode == 1 ? 0 : mode == 5 ? i / 2 : r.next(); for(int k = 0; k < 8; k++) m[7 - k] = v >> 8 * k; if(mode >= 6) for(int k = 0; k < 8; k++) m[k] = (uint64_t)i >> 8 * k;
            // 6 to 9: common end, common start and end, all of one sum, all of one exclusive or
            if(mode == 4) m = ref::cat(pre, m); else if(mode == 6) m = ref::cat(m, pre); else if(mode == 7) m = ref::cat(ref::cat(pre, m), pre); else if(mode == 8) { Bytes c = m; for(auto& x : c) x = -x; m = ref::cat(m, c); } else if(mode == 9) { Bytes c = m; m = ref::cat(ref::cat(m, pre), c); } else if(mode == 0) m = ref::cat(m, r.bytes(r.below(60))); a.M(m); }
        a.Q(p.p2[3]); return "aggregate_verify"; }
    Bytes t = text(r, mode, n), s = r.bytes(32);
    if(op == "hexToBytes" && mode == 3 && n % 2 == 0) { t[0] = '0'; t[1] = 'x'; }
    if(op == "hexToBytes" || op == "bytesToHex") a.M(t);
    else if(op == "xmd_sh256") a.M(t).M(ref::str(ref::SIG_DST)).I(256);
    else if(op == "from_message") a.M(t).M(ref::str(ref::SIG_DST));
    else if(op == "sign") a.S(p.k[0]).M(t);
    else if(op == "verify") a.P(p.p1[0]).M(t).Q(p.sig[0][0]);
    else if(op == "hkdf256_hmac" || op == "hkdf256_extract") a.M(s).M(t);
    else if(op == "hkdf256_hmac_key") { a.M(t).M(s); return "hkdf256_hmac"; }
    else if(op == "hkdf256_expand") a.M(s).M(t).I(64);
    else if(op == "hkdf256_expand_out") { a.M(s).M(Bytes(10)).I(n); return "hkdf256_expand"; }
    else if(op == "hkdf256_extract_expand") a.M(s).M(t).M(s).I(64);
    else if(op == "secret_key") a.M(t);
    else if(op == "ikm_to_lamport_sk") a.M(t).M(s);
    return op;
}
vec<str> single() { vec<str> v; for(auto& n : opNames()) if(metered(n)) v.push_back(n); return v; }
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 16); Plan p; p.push_back("!world"); static const vec<str> ops = single();
    int m = r.range(2, thorough ? 10 : 5);
    for(int i = 0; i < m; i++) {
        if(r.p(.45)) { const Grow& g = GROW[r.below(sizeof GROW / sizeof *GROW)]; int n = r.p(.4) ? r.range(g.lo, std::max<int>(g.lo, g.hi / 8)) : r.p(.6) ? r.range(g.lo, g.hi / 2) : r.range(g.hi / 2, g.hi); if(thorough) n = r.range(g.lo, g.hi); p.push_back(fmt("grow op=%s n=%d mode=%d s=%llu", g.op, n, (int)r.below(g.modes), (unsigned long long)r.next() % 1000000)); }
        else { const str& o = r.pick(ops); int k = r.range(3, 10); for(int j = 0; j < k; j++) p.push_back(fmt("req op=%s s=%llu bad=%llu", o.c_str(), (unsigned long long)r.next() % 1000000, (unsigned long long)(r.p(.25) ? 0 : r.next() % 1000000 + 1))); }
    }
    return p;
}
void exec(const Plan& plan, Report& R) {
    const Host& h = hosts[0]; struct Cal { double time = 0, bytes = 0, peak = 0; }; std::map<str,Cal> cal;
    { Use u; AB a; a.P(pool().p1[0]).P(pool().p1[1]); meter(h, "g1_add", a, u); if(!u.time) R.fail("harness", "the library is not instrumented"); }
    auto seen = [&](const Use& u) { R.add("sim_ms", u.time / 100000); R.see(u.time); R.see(u.bytes); R.see(u.peak); for(auto k : {std::pair<const char*,u64>{"max_blocks", u.time}, {"max_bytes_held", u.peak}, {"max_stack", u.stack}}) { R.add(k.first, 0); u64& x = R.cnt[k.first]; x = std::max(x, k.second); } };
    for(auto& s : plan) {
        Ln l(s);
        if(l.verb == "req") {
            str op = l.s("op"); if(h.op(op) < 0) continue;
            auto c = cal.find(op); if(c == cal.end()) { Cal k; for(int i = 0; i < 24; i++) { OpInst o = makeOp(op, 7000 + i); Use u; meter(h, op, o.a, u); double z = sizeOf(op, o.a); k.time = std::max(k.time, u.time / z); k.bytes = std::max(k.bytes, u.bytes / z); k.peak = std::max(k.peak, u.peak / z); } c = cal.emplace(op, k).first; }
            OpInst o = makeOp(op, l.n("s")); if(u64 b = l.n("bad")) { hostile(o.a, b, op); R.add("fault_hostile_argument"); } Use u; Res x = meter(h, op, o.a, u); seen(u); R.add("requests"); R.see(hstr(x.canon())); R.state(hstr(op) ^ mix(x.st * 2 + !x.v().empty()) ^ mix((u64)(u.time / (c->second.time * sizeOf(op, o.a) + 1) * 20)));
            double z = sizeOf(op, o.a); str where = op + fmt(" (arguments of about %.0f bytes): ", z);
            if(x.st == BLS_NO_OP) continue; const Cal& k = c->second;
            if(u.time > 4 * k.time * z + 4000) R.fail("too-long", where + fmt("%llu basic blocks, where ordinary arguments of this size need at most %.0f", (unsigned long long)u.time, k.time * z));
            if(u.bytes > 4 * k.bytes * z + 65536) R.fail("too-much-requested", where + fmt("%llu bytes of memory requested, where ordinary arguments need at most %.0f", (unsigned long long)u.bytes, k.bytes * z));
            if(u.peak > 4 * k.peak * z + 65536) R.fail("too-much-held", where + fmt("%llu bytes of memory held, where ordinary arguments need at most %.0f", (unsigned long long)u.peak, k.peak * z));
            if(u.stack > STACKLIMIT) R.fail("too-much-stack", where + fmt("%llu bytes of stack", (unsigned long long)u.stack));
        } else if(l.verb == "grow") {
            const Grow* g = growOf(l.s("op")); if(!g) continue; size_t n = l.n("n"); int mode = l.n("mode"); if(!strcmp(g->op, "hexToBytes")) n += n & 1; Use u[2], t; str op; int st = 0;
            for(int k = 0; k < 2; k++) { AB a; op = growArgs(*g, a, l.n("s"), mode, k ? 4 * n : n); Res x = meter(h, op, a, u[k]); seen(u[k]); if(x.st == BLS_NO_OP) R.fail("harness", "arguments refused: " + s); st = x.st; R.see(hstr(x.canon())); }
            if(mode) { AB a; op = growArgs(*g, a, l.n("s") + 1000003, 0, 4 * n); meter(h, op, a, t); } else t = u[1];   // other content, in case the library remembers its last answer
            R.add("growths"); R.state(hstr(g->op) ^ mix(n * 32 + mode) ^ mix(st)); if(mode) R.add("fault_hostile_argument");
            str where = str(g->op) + fmt(" with %zu and %zu %s (content %d): ", n, 4 * n, g->unit == 1 ? "bytes" : "elements", mode); u64 sz = 4ull * n * g->unit;
            if(getenv("SIM_C16")) fprintf(stderr, "%s time %llu %llu (%.2f; per unit %.2f; typical %.2f) bytes %llu %llu (%.2f) peak %llu %llu (%.2f) stack %llu %llu\n", where.c_str(), (unsigned long long)u[0].time, (unsigned long long)u[1].time, (double)u[1].time / u[0].time, (double)u[1].time / (4 * n), (double)u[1].time / t.time, (unsigned long long)u[0].bytes, (unsigned long long)u[1].bytes, (double)u[1].bytes / sz, (unsigned long long)u[0].peak, (unsigned long long)u[1].peak, (double)u[1].peak / sz, (unsigned long long)u[0].stack, (unsigned long long)u[1].stack);
            double lim = !strcmp(g->op, "aggregate_verify") ? 5.5 : 4.8; if(u[1].time > lim * u[0].time + 20000) R.fail("time-grows-faster", where + fmt("%llu and then %llu basic blocks", (unsigned long long)u[0].time, (unsigned long long)u[1].time));
            if(u[1].bytes > 6 * u[0].bytes + 16 * sz / 4 + 65536) R.fail("requests-grow-faster", where + fmt("%llu and then %llu bytes of memory requested", (unsigned long long)u[0].bytes, (unsigned long long)u[1].bytes));
            if(u[1].peak > 5.5 * u[0].peak + 4 * sz / 4 + 65536) R.fail("memory-grows-faster", where + fmt("%llu and then %llu bytes of memory held", (unsigned long long)u[0].peak, (unsigned long long)u[1].peak));
            if(g->unit == 1 && u[1].peak > 24 * sz + (256 << 10)) R.fail("too-much-held", where + fmt("%llu bytes of memory held for about %llu bytes of arguments", (unsigned long long)u[1].peak, (unsigned long long)sz));
            if(u[1].stack > u[0].stack + 8192 || u[1].stack > STACKLIMIT) R.fail("stack-grows", where + fmt("%llu and then %llu bytes of stack", (unsigned long long)u[0].stack, (unsigned long long)u[1].stack));
            if(u[1].time > 4 * t.time + 20000) R.fail("too-long", where + fmt("%llu basic blocks, where ordinary content needs %llu", (unsigned long long)u[1].time, (unsigned long long)t.time));
        }
    }
}
Reg reg({"C16", gen, exec, {}, [] { pool(); opNames(); }});
}
