// C05: the allocator refuses requests chosen by the plan (one, several, all from some point on, all above a size) while
// operations run in one process; each call must give exactly the right result or report the failure, keep nothing,
// and leave every later call right.
#include "core.hpp"
namespace {
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 5); Plan p; p.push_back(fmt("!world host=%d", (int)r.below(16)));
    static const vec<str> al = opNamesWhere("alloc"); const vec<str>& all = opNames(); int n = r.range(1, thorough ? 6 : 3);
    for(int i = 0; i < n; i++) {
        str op = r.p(.85) ? r.pick(al) : r.pick(all); u64 s = r.next() % 1000000000; str head = fmt("call op=%s s=%llu", op.c_str(), (unsigned long long)s);
        if(r.p(.3)) head += fmt(" fill=%d", r.p(.5) ? 0xa5 : 0);
        switch(r.below(5)) {
            case 0: { int m = r.range(4, thorough ? 40 : 14), b = r.p(.7) ? 0 : r.below(60); for(int k = 0; k < m; k++) p.push_back(head + fmt(" at=%d", b + k)); break; }   // every single request in turn
            case 1: { int m = r.range(3, thorough ? 30 : 10), b = r.p(.7) ? 0 : r.below(60); for(int k = 0; k < m; k++) p.push_back(head + fmt(" from=%d", b + k)); break; }
            case 2: for(int k = 0; k < 4; k++) p.push_back(head + fmt(" at=%d at2=%d at3=%d", (int)r.below(8), (int)r.below(12), (int)r.below(80)));
                    break;
            case 3: for(int k = 0; k < 3; k++) { int f = r.below(6); p.push_back(head + fmt(" from=%d below=%d", f, f + (int)r.range(1, 4))); } break;
            default: p.push_back(head + fmt(" at=%d", (int)r.below(10))); p.push_back(head + fmt(" at=%d", (int)r.below(200)));
        }
        if(r.p(.5)) p.push_back(fmt("call op=%s s=%llu", r.p(.7) ? op.c_str() : r.pick(all).c_str(), (unsigned long long)(r.p(.5) ? s : r.next() % 1000000000)));
    }
    return p;
}
void nothing(void*) {}
void exec(const Plan& plan, Report& R) {
    aloneInit(); Ln w(plan[0]); const Host& h = hosts[w.n("host") % hosts.size()];
    std::map<str,str> base; std::map<str,AB> args;
    auto baseline = [&](const str& k, const str& op) -> const str& { auto it = base.find(k); if(it != base.end()) return it->second; R.add("baselines"); return base[k] = aloneCall(h, op, args[k]); };
    for(size_t i = 1; i < plan.size(); i++) {
        Ln l(plan[i]); if(l.verb != "call" || h.op(l.s("op")) < 0) continue; str op = l.s("op"); u64 s = l.n("s"); str k = op + std::to_string(s);
        if(!args.count(k)) args[k] = makeOp(op, s).a;
        const str& b = baseline(k, op); bool withCb = s % 3 == 0;
        std::set<u64> at; for(const char* q : {"at", "at2", "at3"}) if(l.has(q)) at.insert(l.n(q));
        auto once = [&](u64& failed) { BlsHooks hk = memHooks(false); if(withCb) hk.yield = nothing;
            mem::reset(); mem::ctl.track = true; mem::ctl.failAt = &at; mem::ctl.failFrom = l.has("from") ? l.n("from") : ~0ull; mem::ctl.failBelow = l.has("below") ? l.n("below") : ~0ull;
            if(l.has("fill")) { mem::ctl.fill = l.n("fill"); }
            Res r = call(h, op, args[k], &hk); failed = mem::ctl.failed; return r; };
        u64 failed; Res r = once(failed); u64 held = mem::liveBlocks(), total = mem::ctl.n; note(fmt("after call %zu %s", i, op.c_str()));
        mem::ctl.failAt = nullptr; mem::ctl.failFrom = ~0ull; mem::ctl.track = false;
        R.add("lib_calls"); if(failed) { R.add("fault_allocation_failed", failed); R.add("calls_with_failed_allocation"); }
        str c = r.canon(); R.see(c); R.see(failed); R.state(hstr(op) ^ mix(failed ? *at.begin() * 4 + 1 : 0) ^ r.st);
        str where = fmt("%s: call %zu %s s=%llu, %llu of %llu requests refused", h.name.c_str(), i, op.c_str(), (unsigned long long)s, (unsigned long long)failed, (unsigned long long)total);
        if(!r.intact) R.fail("arguments-modified", where);
        if(c != b) {
            bool reported = r.st == BLS_BAD_ALLOC || r.st == BLS_STD_EXC || r.st == BLS_FOREIGN_EXC || canFailByCode(op, r);
            if(!failed) R.fail("later-call-wrong", where + ": " + c.substr(0, 160) + " instead of " + b.substr(0, 160));
            if(!reported) R.fail("wrong-answer-after-failed-allocation", where + ": " + c.substr(0, 160) + " instead of " + b.substr(0, 160));
            R.add("reported");
        } else if(failed) R.add("correct_in_spite_of_failure");
        if(held) {   // a first use may keep something once; a leak comes back every time
            u64 f2; int grew = 0; for(int q = 0; q < 4; q++) { once(f2); if(mem::liveBlocks()) grew++; }
            mem::ctl.failAt = nullptr; mem::ctl.failFrom = ~0ull; mem::ctl.track = false;
            if(grew == 4) R.fail("memory-lost", where + fmt(": %llu blocks still held after the call", (unsigned long long)held));
        }
    }
}
Reg reg({"C05", gen, exec, {}, [] { pool(); opNames(); }});
}
