// C12: one long-lived process; a history of successful, rejected, failed (allocation), cancelled and threaded calls in
// memory painted with seed-chosen contents. Every plain call must return what it returns as the only call of a fresh
// process whose memory holds something else.
#include "core.hpp"
#include <pthread.h>
namespace {
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 12); Plan p; int n = r.range(6, thorough ? 60 : 28);
    p.push_back(fmt("!world host=%d", (int)r.below(16)));
    static const vec<str> light = opNamesWhere("light"), al = opNamesWhere("alloc"), cbk = opNamesWhere("callback");
    const vec<str>& all = opNames(); str last; u64 lastS = 0; int style = r.below(3);
    for(int i = 0; i < n; i++) {
        str op = last; u64 s = r.next() % 1000000000, mut = 0;
        if(last.empty() || r.p(.6)) op = style == 1 ? r.pick(light) : r.p(.12) ? "alias" : r.p(.2) ? r.pick(al) : r.pick(all);   // often the same operation again, with other arguments at the same addresses
        else if(r.p(.6)) { s = lastS; if(op != "alias" && op != "bn_div" && r.p(.65)) mut = r.range(1, 1000000); }                         // the same call again, or with one argument slightly different
        last = op; lastS = s;
        static const vec<int> bytes{0, 0xff, 0x5a, 0xa5, 1, 0x80, 0x7f, 0xcc};
        str l = fmt("call op=%s s=%llu fill=%d", op.c_str(), (unsigned long long)s, r.p(.15) ? -1 : r.pick(bytes)); if(mut) l += fmt(" mut=%llu", (unsigned long long)mut);
        if(r.p(.7)) l += fmt(" paint=%d", r.pick(bytes));
        if(r.p(.15)) l += " thread=1"; if(r.p(.4)) l += fmt(" guard=%d", r.p(.4) ? 1 : 1 + (int)r.below(16)); if(r.p(.3)) l += fmt(" gap=%d", (int)r.below(4000));
        if(r.p(.12)) l += fmt(" failfrom=%d", (int)r.below(r.p(.7) ? 6 : 40)); else if(r.p(.1)) l += fmt(" fail=%d", (int)r.below(r.p(.7) ? 6 : 40));
        else if(r.p(.2) && (op == "g1_weightedSum" || op == "g2_weightedSum" || op.find("pairing") == 0 || op == "miller_loop")) l += fmt(" cancel=%d", (int)r.below(20));
        p.push_back(l);
    }
    return p;
}
struct Ctx { u64 n = 0, at = 0; };
void yieldThrow(void* c) { Ctx& x = *(Ctx*)c; if(x.n++ == x.at) { bool was = mem::ctl.armed; mem::ctl.armed = false; struct R { bool w; ~R() { mem::ctl.armed = w; } } rr{was}; throw CancelToken{7, 7}; } }
// byte strings at addresses of any alignment
int offset = 0;
uint8_t* offAlloc(void*, size_t n, int) { static constexpr size_t SZ = 1 << 16; alignas(64) static uint8_t slot[8][SZ + 64]; static int next = 0; if(n > SZ) return nullptr; next = (next + 1) % 8; return slot[next] + offset; }
void exec(const Plan& plan, Report& R) {
    aloneInit();
    Ln w(plan[0]); const Host& h = hosts[w.n("host") % hosts.size()];
    std::map<str,str> base;
    auto baseline = [&](const str& op, const AB& a, u64 s, u64 m) -> const str& {
        str k = op + std::to_string(s) + "/" + std::to_string(m); auto it = base.find(k); if(it != base.end()) return it->second;
        AB b = a; if(op == "alias") b.in[1] = 0;                       // the reference call has separate operands
        int f = 1 + (int)(mix(s ^ 99) % 255);
        str v = aloneCall(h, op, b, f), v2 = aloneCall(h, op, b, f ^ 0xff ? f ^ 0xff : 0x11);
        if(v != v2) R.fail("depends-on-unused-memory", op + fmt(" s=%llu: alone, with memory filled with %d: ", (unsigned long long)s, f) + v.substr(0, 120) + " and with other contents: " + v2.substr(0, 120));
        R.add("baselines"); return base[k] = v; };
    vec<void*> gaps; u64 seq = 0; str prev = "-";
    struct Slot { ~Slot() {} };
    for(size_t i = 1; i < plan.size(); i++) {
        Ln l(plan[i]); if(l.verb != "call") continue;
        str op = l.s("op"); u64 s = l.n("s"); if(h.op(op) < 0) continue;
        OpInst o = makeOp(op, s, l.n("mut")); if(l.has("mut")) R.add("slightly_different_again"); bool faulty = l.has("fail") || l.has("failfrom") || l.has("cancel");
        const str* b = faulty ? nullptr : &baseline(op, o.a, s, l.n("mut"));
        if(l.n("gap")) { gaps.push_back(malloc(l.n("gap"))); if(gaps.size() > 3) { free(gaps[gaps.size() / 2]); gaps.erase(gaps.begin() + gaps.size() / 2); } R.add("fault_moved_heap"); }
        BlsHooks hk = memHooks(l.n("guard") == 1); if(l.n("guard") > 1) { offset = l.n("guard") - 1; hk.guard = offAlloc; R.add("fault_moved_bytes"); } Ctx cx; cx.at = l.n("cancel"); std::set<u64> at;
        if(l.has("cancel")) { hk.ctx = &cx; hk.yield = yieldThrow; }
        mem::ctl.fill = (int)(int64_t)strtoll(l.s("fill", "-1").c_str(), 0, 10); if(mem::ctl.fill >= 0) R.add("fault_dirty_heap");
        mem::ctl.n = 0; mem::ctl.failed = 0; mem::ctl.failFrom = l.has("failfrom") ? l.n("failfrom") : ~0ull; if(l.has("fail")) { at.insert(l.n("fail")); mem::ctl.failAt = &at; } else mem::ctl.failAt = nullptr;
        struct Job { const Host& h; const str& op; const AB& a; BlsHooks& hk; int paint; Res r; } job{h, op, o.a, hk, l.has("paint") ? (int)l.n("paint") : -1, {}};
        auto body = [](void* v) -> void* { Job& j = *(Job*)v; if(j.paint >= 0) paintStack(j.paint); j.r = call(j.h, j.op, j.a, &j.hk); return nullptr; };
        if(l.has("paint")) R.add("fault_dirty_stack");
        note(fmt("call %zu %s s=%llu", i, op.c_str(), (unsigned long long)s));
        if(l.has("thread")) { pthread_t t; pthread_attr_t at2; pthread_attr_init(&at2); pthread_attr_setstacksize(&at2, 4 << 20); if(pthread_create(&t, &at2, body, &job)) R.fail("harness", "pthread_create"); pthread_join(t, nullptr); R.add("on_other_thread"); }
        else body(&job);
        u64 failed = mem::ctl.failed; mem::ctl.failAt = nullptr; mem::ctl.failFrom = ~0ull; mem::ctl.fill = -1;
        R.add("lib_calls"); seq++;
        if(!job.r.intact) R.fail("arguments-modified", fmt("call %zu %s s=%llu", i, op.c_str(), (unsigned long long)s));
        if(faulty) { if(failed) R.add("fault_allocation_failed"); if(l.has("cancel") && job.r.st == BLS_FOREIGN_EXC) R.add("fault_cancelled"); R.see((u64)job.r.st); prev = op; continue; }
        str c = job.r.canon(); R.see(c); R.state(hstr(prev + ">" + op) ^ mix(job.r.st));
        if(job.r.st) R.add("calls_rejected_by_exception");
        if(c != *b) { size_t d = 0; while(d < c.size() && d < b->size() && c[d] == (*b)[d]) d++; R.fail(op == "alias" ? "depends-on-overlap-or-history" : "depends-on-history", fmt("call %zu of %s, %s s=%llu: differs from position %zu: ..%s, alone ..%s", i, h.name.c_str(), op.c_str(), (unsigned long long)s, d, c.substr(d > 8 ? d - 8 : 0, 90).c_str(), b->substr(d > 8 ? d - 8 : 0, 90).c_str())); }
        prev = op;
    }
    // the same arguments on builds whose unused local variables hold different contents
    const Host *z = hostByName("initz"), *pt = hostByName("initp");
    if(z && pt) for(size_t i = 1; i < plan.size(); i++) { Ln l(plan[i]); if(l.verb != "call" || l.n("s") % 3) continue; OpInst o = makeOp(l.s("op"), l.n("s"));
        str x = call(*z, o.name, o.a).canon(), y = call(*pt, o.name, o.a).canon(); R.add("fault_dirty_locals"); R.see(x);
        if(x != y) R.fail("depends-on-uninitialised-variable", o.name + fmt(" s=%llu: locals zeroed: ", (unsigned long long)o.seed) + x.substr(0, 150) + " locals patterned: " + y.substr(0, 150)); }
    for(void* g : gaps) free(g);
}
Reg reg({"C12", gen, exec, {}, [] { pool(); opNames(); }});
}
