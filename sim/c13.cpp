// C13: every call gives back what it took. A simulated process repeats rounds of calls, with allocation failures and
// cancelled computations among them; the memory it holds after 1x, 2x and 4x as many rounds must not keep growing.
#include "core.hpp"
#include <sys/mman.h>
#include <pthread.h>
namespace {
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 13); Plan p; int n = r.range(1, thorough ? 8 : 4);
    p.push_back(fmt("!world host=%d rounds=%d", (int)r.below(16), (int)r.range(3, 8)));
    if(r.p(.25)) p[0] += " threads=1";
    static const vec<str> light = opNamesWhere("light"), al = opNamesWhere("alloc"), de = opNamesWhere("decode"); const vec<str>& all = opNames();
    if(r.p(.2)) {     // one operation on ever different arguments: what it remembers of them must be bounded
        static const vec<str> sig = opNamesWhere("sig"), heavy = opNamesWhere("heavy"); static const vec<str> dec{"verify", "aggregate_verify", "pop_fast_aggregate_verify", "pop_verify", "sign", "from_message", "pairing", "pairing_raw"}; str op = r.p(.35) ? r.pick(dec) : r.p(.5) ? r.pick(sig) : r.pick(all);
        bool hv = std::find(heavy.begin(), heavy.end(), op) != heavy.end(); p.push_back(fmt("fresh op=%s s=%llu n=%d", op.c_str(), (unsigned long long)r.next() % 1000000000, thorough ? hv ? 4096 : 8192 : hv ? 1200 : 2048)); if(r.p(.75)) p.back() += fmt(" new=%d", (int)r.range(1, 7)); return p; }
    for(int i = 0; i < n; i++) {
        str op = r.p(.4) ? r.pick(al) : r.p(.25) ? r.pick(de) : r.p(.4) ? r.pick(light) : r.pick(all);
        int reps = r.range(1, 5);
        str l = fmt("call op=%s s=%llu n=%d", op.c_str(), (unsigned long long)r.next() % 1000000000, reps);
        if(r.p(.35)) l += fmt(" vary=1");
        if(r.p(.15)) l += fmt(" fail=%d", (int)r.below(8)); else if(r.p(.08)) l += fmt(" failfrom=%d", (int)r.below(8)); else if(r.p(.5) && (op == "g1_weightedSum" || op == "g2_weightedSum" || op.find("pairing") == 0 || op == "miller_loop")) l += fmt(" cancel=%d", (int)r.below(r.p(.5) ? 3 : 60));
        p.push_back(l);
    }
    return p;
}
// the catalogue draws points and messages from a pool: here each call gets points and contents of its own (bit 0: messages, 1 and 2: points)
void freshen(AB& a, int what, u64 i, G1& w, G2& v) {
    if(what & 1) for(auto& m : a.m) for(size_t k = 0; k < m.size() && k < 4; k++) m[m.size() - 1 - k] ^= i + 1 >> 8 * k;
    if(what & 2) for(auto& p : a.p1) { w = w + pool().p1[7]; p = ref::jacbe(w); }
    if(what & 4) for(auto& q : a.p2) { v = v + pool().p2[7]; q = ref::jacbe(v); } }
// the call made on a thread of its own, which ends after it: what the library keeps for a thread must go with the thread
struct Job { const Host& h; const str& op; const AB& a; BlsHooks* hk; Res r; };
void* body(void* c) { Job& j = *(Job*)c; j.r = call(j.h, j.op, j.a, j.hk); return nullptr; }
Res callOn(bool own, const Host& h, const str& op, const AB& a, BlsHooks* hk, Report& R) { if(!own) return call(h, op, a, hk); Job j{h, op, a, hk, {}}; pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20); int e = pthread_create(&t, &at, body, &j); pthread_attr_destroy(&at); if(e) R.fail("harness", "pthread_create"); pthread_join(t, nullptr); R.add("on_thread_of_its_own"); return j.r; }
struct Ctx { u64 n = 0, at = 0; };
void yieldThrow(void* c) { Ctx& x = *(Ctx*)c; bool was = mem::ctl.armed; mem::ctl.armed = false; struct R { bool w; ~R() { mem::ctl.armed = w; } } rr{was}; if(x.n++ == x.at) throw CancelToken{7, 7}; }
void exec(const Plan& plan, Report& R) {
    Ln w(plan[0]); const Host& h = hosts[w.n("host") % hosts.size()]; u64 base = w.n("rounds", 4); bool own = w.n("threads");
    for(auto& s : plan) { Ln l(s); str op = l.s("op"); if(l.verb != "fresh" || h.op(op) < 0) continue;
        u64 n = l.n("n"), at[8] = {}, by[8] = {}; mem::reset(); mem::ctl.track = true; BlsHooks hk = memHooks(false); note(op); int what = l.n("new"); G1 fw = pool().p1[3]; G2 fv = pool().p2[3];
        auto upto = [&](u64 i, u64 e) { for(; i < e; i++) { mem::ctl.n = 0; AB a = makeOp(op, l.n("s") + i / 2, i % 2 ? i : 0).a; if(what) freshen(a, what, i, fw, fv); Res r = callOn(own, h, op, a, &hk, R); R.add("lib_calls"); R.add("fresh_calls"); if(r.st) R.add("calls_rejected_by_exception"); if(i % 64 == 0) R.see(r.canon()); } };
        upto(0, n / 8); for(int q = 1; q <= 4; q++) { at[q] = mem::liveBlocks(); by[q] = mem::liveBytes(); if(q < 4) upto(n >> (4 - q), n >> (3 - q)); }
        // growth in proportion to the number of calls, by at least a block or 16 bytes for every 100 calls
        auto grows = [&](const u64* v, int e, u64 least) { for(int i = 2; i <= e; i++) if(v[i] <= v[i - 1]) return false; return 20 * (v[e] - v[e - 1]) >= 11 * (v[e - 1] - v[1]) && 100 * (v[e] - v[e - 1]) >= least * (n << (e - 4) >> 1); };
        if(grows(at, 4, 1) || grows(by, 4, 16)) { R.add("looked_closer"); upto(n, 2 * n); at[5] = mem::liveBlocks(); by[5] = mem::liveBytes(); upto(2 * n, 4 * n); at[6] = mem::liveBlocks(); by[6] = mem::liveBytes(); }
        R.state(hstr(op)); mem::ctl.track = false;
        for(auto* v : {at, by}) if(grows(v, 6, v == at ? 1 : 16)) R.fail("memory-grows", fmt("%s: %s held after %llu, %llu, %llu, %llu, %llu and %llu calls of %s with different arguments: %llu, %llu, %llu, %llu, %llu, %llu", h.name.c_str(), v == at ? "blocks" : "bytes", n / 8, n / 4, n / 2, n, 2 * n, 4 * n, op.c_str(), v[1], v[2], v[3], v[4], v[5], v[6])); }
    struct Item { str op; vec<AB> a; int n; Ln l; }; vec<Item> items;
    for(size_t i = 1; i < plan.size(); i++) { Ln l(plan[i]); if(l.verb != "call" || h.op(l.s("op")) < 0) continue; Item it{l.s("op"), {}, (int)l.n("n", 1), l}; for(int k = 0; k < (l.n("vary") ? 4 : 1); k++) it.a.push_back(makeOp(it.op, l.n("s") + k).a); items.push_back(it); }
    if(items.empty()) return;   // fresh plans end here
    mem::reset(); mem::ctl.track = true; std::set<u64> at; bool done = false;
    auto round = [&](u64 no) { for(auto& it : items) for(int k = 0; k < it.n; k++) {
        Ctx cx; cx.at = it.l.n("cancel"); BlsHooks hk = memHooks(false); if(it.l.has("cancel")) { hk.ctx = &cx; hk.yield = yieldThrow; }
        at.clear(); mem::ctl.n = 0; mem::ctl.failed = 0; mem::ctl.failAt = nullptr; mem::ctl.failFrom = ~0ull;
        if(it.l.has("fail")) { at.insert(it.l.n("fail")); mem::ctl.failAt = &at; } if(it.l.has("failfrom")) mem::ctl.failFrom = it.l.n("failfrom");
        Res r = callOn(own, h, it.op, it.a[(no + k) % it.a.size()], &hk, R); mem::ctl.failAt = nullptr; mem::ctl.failFrom = ~0ull; R.add("lib_calls");
        if(mem::ctl.failed) R.add("fault_allocation_failed"); if(r.st == BLS_FOREIGN_EXC) R.add("fault_cancelled"); if(r.st) R.add("calls_rejected_by_exception"); if(mem::ctl.n) R.add("calls_that_allocate");
        if(!done) { R.see(r.canon()); R.state(hstr(it.op) ^ mix(r.st * 1000 + (mem::ctl.n < 50 ? mem::ctl.n : 50)) ^ (mem::ctl.failed ? 77 : 0)); } } };
    u64 held[4], bytes[4], no = 0; auto upto = [&](u64 k) { while(no < k) round(no++); };
    upto(base); done = true; held[0] = mem::liveBlocks(); bytes[0] = mem::liveBytes();
    for(int q = 1; q < 4; q++) { upto(base << q); held[q] = mem::liveBlocks(); bytes[q] = mem::liveBytes(); }
    R.add("rounds", no); R.see(held[3] - held[1]);
    if(held[1] < held[2] && held[2] < held[3]) R.fail("memory-grows", fmt("%s: blocks held after %llu, %llu, %llu and %llu rounds: %llu, %llu, %llu, %llu (first call %s)", h.name.c_str(), base, base*2, base*4, base*8, held[0], held[1], held[2], held[3], items[0].op.c_str()));
    if(bytes[1] < bytes[2] && bytes[2] < bytes[3]) R.fail("memory-grows", fmt("%s: bytes held after %llu, %llu, %llu and %llu rounds: %llu, %llu, %llu, %llu (first call %s)", h.name.c_str(), base, base*2, base*4, base*8, bytes[0], bytes[1], bytes[2], bytes[3], items[0].op.c_str()));
}
Reg reg({"C13", gen, exec, {}, [] { pool(); opNames(); }});
}
