// C02 and C03: several weighted sums and pairing products run as tasks (fibers) of one thread. Their progress callback
// is the scheduler's seam: at each invocation the plan may switch to another task, call any other operation, start
// another such computation inside, or (C03) throw. Results are compared with sums known from discrete logarithms.
#include <cxxabi.h>
#include "net.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <stdexcept>
#include <memory>
namespace {
const char* kinds[] = {"g1_weightedSum", "g2_weightedSum", "pairing", "pairing_raw", "miller_loop"};
struct SimErr : std::runtime_error { u64 id; SimErr(u64 i) : std::runtime_error("cancelled by the simulator"), id(i) {} };
struct SimOom : std::bad_alloc { u64 id; SimOom(u64 i) : id(i) {} };
struct SimPlain { u64 id; char big[200]; };
struct V1 { virtual ~V1() {} u64 a = 1; }; struct V2 : virtual V1 { u64 id; V2(u64 i) : id(i) {} };
constexpr int NEXC = 6;
[[noreturn]] void raise(int type, u64 id) {
    switch(type % NEXC) { case 0: throw CancelToken{id, ~id}; case 1: throw SimErr(id); case 2: throw (int)id; case 3: throw SimOom(id); case 4: { SimPlain p{id, {}}; throw p; } default: throw V2(id); } }
bool same(int type, u64 id) {                                     // inside a handler: is the current exception the one raised?
    try { throw; }
    catch(CancelToken& e) { return type % NEXC == 0 && e.id == id && e.salt == ~id; } catch(SimErr& e) { return type % NEXC == 1 && e.id == id && !strcmp(e.what(), "cancelled by the simulator"); } catch(int e) { return type % NEXC == 2 && e == (int)id; }
    catch(SimOom& e) { return type % NEXC == 3 && e.id == id; } catch(SimPlain& e) { return type % NEXC == 4 && e.id == id; } catch(V2& e) { return type % NEXC == 5 && e.id == id; } catch(...) { return false; } }

Plan gen(u64 seed, bool thorough, bool cancel) {
    Rng r(seed, cancel ? 3 : 2); Plan p; int nt = r.range(1, thorough ? 6 : r.p(.3) ? 5 : 4);
    p.push_back(fmt("!world seed=%llu host=%d rounds=%d", (unsigned long long)r.next() % 100000000, (int)r.below(16), cancel ? 1 : 1));
    static const vec<str> light = opNamesWhere("light"); const vec<str>& all = opNames();
    bool smallSizes = r.p(.25); auto size = [&](int k) { if(smallSizes) return k <= 1 ? (int)r.range(1, 45) : (int)r.range(18, 24); if(k <= 1 && r.p(.012)) return (int)r.range(600, k ? 1600 : thorough ? 20000 : 5000); if(k <= 1) return r.p(.45) ? (int)r.below(12) : r.p(.6) ? (int)r.range(28, 80) : (int)r.range(250, k == 0 ? 620 : 300); return r.p(.75) ? (int)r.range(18, 30) : (int)r.below(20); };
    int one = r.p(.35) ? (int)r.weighted({4, 3, 2, 2, 2}) : -1;      // all of one kind, so that they meet in the same code
    auto comp = [&](int id, const char* verb) { int k = one >= 0 && r.p(.9) ? one : r.weighted({4, 3, 2, 2, 2}); return fmt("%s id=%d kind=%d n=%d s=%llu dup=%d extra=%d", verb, id, k, size(k), (unsigned long long)r.next() % 1000000000, (int)r.below(4), r.p(.2) ? (int)r.below(5) : 0); };
    for(int i = 0; i < nt; i++) { str c = comp(i, "task"); if(i && r.p(.25)) c += fmt(" share=%d", (int)r.below(i)); if(r.p(.15)) c += fmt(" amid=%d", (int)r.range(1, 2)); if(i && r.p(.3)) c += fmt(" late=%d", (int)r.range(1, r.p(.7) ? 1 : 2)); p.push_back(c); }
    int nest = r.below(4); for(int i = 0; i < nest; i++) p.push_back(comp(100 + i, "nested"));
    if(r.p(.6)) p.push_back(fmt("rr every=%d", (int)r.range(1, r.p(.5) ? 3 : 60)));
    auto who = [&] { return r.p(.75) || !nest ? (int)r.below(nt) : 100 + (int)r.below(nest); };
    auto J = [&] { return (int)(r.p(.5) ? r.below(5) : r.below(280)); };
    int na = r.range(1, thorough ? 14 : 8);
    for(int i = 0; i < na; i++) switch(r.below(nest ? 3 : 2)) {
        case 0: p.push_back(fmt("act id=%d j=%d do=switch to=%d", who(), J(), (int)r.below(nt))); break;
        case 1: p.push_back(fmt("act id=%d j=%d do=op op=%s s=%llu", who(), J(), (r.p(.6) ? r.pick(light) : r.pick(all)).c_str(), (unsigned long long)r.next() % 1000000)); break;
        default: p.push_back(fmt("act id=%d j=%d do=nest n=%d", (int)r.below(nt), J(), 100 + (int)r.below(nest)));
    }
    if(cancel) { int nc = r.range(1, 4); for(int i = 0; i < nc; i++) p.push_back(fmt("throw id=%d j=%d type=%d%s", r.p(.8) ? (int)r.below(nt) : who(), r.p(.35) ? 0 : J(), (int)r.below(NEXC), r.p(.3) ? fmt(" last=%d", (int)r.range(1, r.p(.7) ? 2 : 6)).c_str() : "")); }
    for(int i = 0; i < (int)r.below(3); i++) p.push_back(fmt("after op=%s s=%llu", (r.p(.6) ? r.pick(light) : r.pick(all)).c_str(), (unsigned long long)r.next() % 1000000));
    return p;
}
// every task has exceptions of its own, as with any runtime that switches stacks
struct Eh { void* caught = nullptr; unsigned uncaught = 0; }; Eh* eh() { return (Eh*)abi::__cxa_get_globals(); }
struct World; struct Comp {
    World* w; int id, kind; Ln l; void* h = nullptr; bool ownH = true; str expect, how; u64 calls = 0; bool thrown = false, running = false; int thrownType = 0; u64 thrownId = 0; bool caughtSame = false, sawCatch = false;
    u64 late = 0; str result; int st = 0; bool finished = false, retrying = false; Comp(World* w, int id, const Ln& l) : w(w), id(id), kind(l.n("kind") % 5), l(l) {} };
struct Fiber { ucontext_t c; char* stack = nullptr; Comp* comp; bool done = false, started = false; };
struct World {
    Report& R; const Host* h; bool cancel; vec<Fiber> fib; std::map<int,Comp*> comps; ucontext_t main; int cur = -1; u64 rr = 0, yields = 0; int depth = 0; std::vector<std::exception_ptr> err;
    std::multimap<std::pair<int,u64>,Ln> acts; std::map<std::pair<int,u64>,int> throws_; std::map<int,std::pair<u64,int>> lasts; std::map<str,str>* base; u64 exId = 1000; str vk, vd;
    World(Report& r) : R(r) {}
    void bad(const str& k, const str& d) { if(vk.empty()) { vk = k; vd = d; } }
    bool ready(int t) { int d = 0; for(auto& f : fib) d += f.done; return !fib[t].done && (fib[t].started || (int)fib[t].comp->late <= d); }   // a late task starts when others have ended
    void switchTo(int t) { if(t == cur || t < 0 || t >= (int)fib.size() || !ready(t)) return; int from = cur; cur = t; R.add("switches"); Eh mine = *eh(); swapcontext(&fib[from].c, &fib[t].c); *eh() = mine; cur = from; }
    int next() { for(int any = 0; any < 2; any++) for(size_t k = 1; k <= fib.size(); k++) { int t = (cur + k) % fib.size(); if(any ? !fib[t].done : ready(t)) return t; } return -1; }
    str baseline(const str& op, u64 s) { str k = op + std::to_string(s); auto it = base->find(k); if(it != base->end()) return it->second; return (*base)[k] = aloneCall(*h, op, makeOp(op, s).a); }
    void plainOp(const str& op, u64 s, const char* where) { if(h->op(op) < 0) return; str b = baseline(op, s); Res r = call(*h, op, makeOp(op, s).a); R.add("lib_calls"); str c = r.canon(); R.see(c); if(c != b) bad("other-operation-wrong", fmt("%s: %s s=%llu gives %s instead of ", where, op.c_str(), (unsigned long long)s, c.substr(0, 150).c_str()) + b.substr(0, 150)); if(!r.intact) bad("arguments-modified", op); }
    void run(Comp& c);
    void onYield(Comp& c) {
        R.add("callbacks"); u64 j = c.calls++; yields++;
        if(c.thrown) { bad("callback-invoked-after-exception", fmt("computation %d invoked the callback again after invocation %llu threw", c.id, (unsigned long long)j)); return; }
        if((j < 64 || j % 16 == 0) && !h->api->intact(c.h)) bad("arguments-modified", fmt("computation %d (%s), seen at callback %llu", c.id, kinds[c.kind], (unsigned long long)j));
        auto rg = acts.equal_range({c.id, j}); vec<Ln> todo; for(auto i = rg.first; i != rg.second; ++i) todo.push_back(i->second);
        if(!c.retrying) for(auto& a : todo) { str d = a.s("do");
            if(d == "switch") { if(depth == 0) switchTo(a.n("to")); }
            else if(d == "op") { R.add("fault_operation_inside_callback"); plainOp(a.s("op"), a.n("s"), fmt("inside callback %llu of computation %d", (unsigned long long)j, c.id).c_str()); }
            else if(d == "nest") { auto it = comps.find(a.n("n")); if(it != comps.end() && !it->second->running && depth < 4) { R.add("fault_computation_inside_callback"); depth++; run(*it->second); depth--; } } }
        if(rr && depth == 0 && yields % rr == 0) switchTo(next());
        auto t = throws_.find({c.id, j}); if(t != throws_.end() && !c.retrying) { c.thrown = true; c.thrownType = t->second; c.thrownId = ++exId; R.add("fault_exception_from_callback"); R.add(fmt("exception_type_%d", t->second % NEXC)); }
    }
};
void yieldHook(void* v) { Comp& c = *(Comp*)v; bool was = mem::ctl.armed; mem::ctl.armed = false; struct G { bool w; ~G() { mem::ctl.armed = w; } } g{was}; bool before = c.thrown; c.w->onYield(c); if(c.thrown && !before) raise(c.thrownType, c.thrownId); }
void caughtHook(void* v) { Comp& c = *(Comp*)v; bool was = mem::ctl.armed; mem::ctl.armed = false; c.sawCatch = true; c.caughtSame = c.thrown && same(c.thrownType, c.thrownId); mem::ctl.armed = was; }
void beg(void*) { mem::ctl.armed = true; } void fin(void*) { mem::ctl.armed = false; }
void World::run(Comp& c) {
    c.running = true; c.calls = 0; c.thrown = c.sawCatch = c.caughtSame = false;
    static const size_t CAP = 1 << 16; auto doit = [&] {
        std::unique_ptr<uint8_t[]> out(new uint8_t[CAP]); size_t n = 0; BlsHooks hk{}; hk.ctx = &c; hk.yield = yieldHook; hk.caught = caughtHook; hk.begin = beg; hk.end = fin;
        note(fmt("computation %d (%s)", c.id, kinds[c.kind])); Res r; auto go = [&] { r.st = h->api->exec(c.h, &hk, out.get(), CAP, &n); };
        switch(c.l.n("amid")) {      // from a destructor while an exception is on its way, or from its handler
            case 1: { struct D { decltype(go)& g; ~D() { g(); } }; R.add("amid_unwinding"); try { D d{go}; throw c.id; } catch(int) {} break; }
            case 2: R.add("amid_handler"); try { throw c.id; } catch(int) { go(); } break;
            default: go(); } r.raw.assign(out.get(), out.get() + n); R.add("lib_calls"); R.add("computations");
        if(!h->api->intact(c.h)) bad("arguments-modified", fmt("computation %d (%s) changed its inputs", c.id, kinds[c.kind]));
        return r; };
    auto la = lasts.find(c.id); if(la != lasts.end()) {                                // cancelled at one of the last invocations: count them first
        c.retrying = true; Res q = doit(); c.retrying = false; if(q.canon() != c.expect) bad("wrong-result", fmt("computation %d (%s), undisturbed: ", c.id, kinds[c.kind]) + q.canon().substr(0, 120) + " instead of " + c.expect.substr(0, 120));
        if(c.calls >= la->second.first) throws_[{c.id, c.calls - la->second.first}] = la->second.second; R.add("cancel_near_end"); c.calls = 0; lasts.erase(la); }
    Res r = doit(); R.see(r.canon()); R.see(c.calls); R.state(hstr(kinds[c.kind]) ^ mix(c.l.n("n") * 1000 + c.calls) ^ (c.thrown ? mix(c.thrownType) : 0));
    if(c.thrown) {
        str where = fmt("computation %d (%s, %d terms), exception type %d at invocation %llu", c.id, kinds[c.kind], (int)c.l.n("n"), c.thrownType % NEXC, (unsigned long long)c.calls - 1);
        if(!c.sawCatch) bad("exception-swallowed", where + ": the computation returned " + r.canon().substr(0, 100)); else if(!c.caughtSame) bad("different-exception", where);
        c.thrown = false; c.retrying = true; r = doit(); c.retrying = false;           // the same computation again, on the same inputs
        str g = r.canon(); R.see(g);
        if(g != c.expect) bad("wrong-after-cancel", where + ", repeated: " + g.substr(0, 120) + " instead of " + c.expect.substr(0, 120));
    } else if(r.canon() != c.expect) bad("wrong-result", fmt("computation %d (%s, %d terms) with callback: ", c.id, kinds[c.kind], (int)c.l.n("n")) + r.canon().substr(0, 120) + " instead of " + c.expect.substr(0, 120) + " (" + c.how + ")");
    c.finished = true; c.running = false;
}
World* W;
void fiberMain(int i) { *eh() = Eh{}; Fiber& f = W->fib[i]; f.started = true; W->run(*f.comp); f.done = true; int t = W->next(); if(t < 0) { setcontext(&W->main); } W->cur = t; setcontext(&W->fib[t].c); }
AB argsFor(const Ln& l, World& w, str& expect, str& how) {
    int kind = l.n("kind") % 5, n = l.n("n"); Rng r(l.n("s"), 21); AB a; const Pool& p = pool(); int dup = l.n("dup"); Sc sum{};
    if(kind <= 1) {
        int mode = r.below(8), per = 1 << r.range(2, 9), ph = r.below(per), bit = r.below(248), wid = r.range(1, 8), last = r.below(Pool::N); Sc ls = randSk(r); G1 t1; G2 t2; bool tors = r.p(.15) && n <= 80; int extra = l.n("extra");
        for(int i = 0; i < n; i++) {
            if(!(dup == 1 && r.p(.5)) && dup != 2) last = r.below(Pool::N); if(mode != 3 || r.p(.1)) ls = mode == 1 ? Sc{r.below(40)} : mode == 2 && r.p(.3) ? Sc{} : randScalar(r);
            if(mode == 4) ls = i % per == ph ? randScalar(r) : Sc{}; else if(mode == 5 && i % per == ph) ls = Sc{}; else if(mode == 6) ls = Sc{~0ull, ~0ull, ~0ull, ~0ull}; else if(mode == 7) { u64 d = r.next() & ((1 << wid) - 1); ls = Sc{}; ls[bit / 64] = d << bit % 64; if(bit % 64 > 56) ls[bit / 64 + 1] = d >> (64 - bit % 64); }   // zero or nonzero at regular places, all ones, one digit
            bool neg = r.p(.2), ident = r.p(.05); Sc k = ident ? Sc{} : p.k[last]; Sc term = ref::mulr(k, ls); sum = neg ? ref::subr(sum, term) : ref::addr(sum, term);
            if(kind == 0) { G1 q = ident ? G1{} : neg ? p.p1[last].neg() : p.p1[last]; if(tors && r.p(.2)) { const G1& e = r.pick(p.tors1); q = q + e; t1 = t1 + e.mul(ls); } a.P(r.p(.3) ? rerep(r, q) : q); }
            else { G2 q = ident ? G2{} : neg ? p.p2[last].neg() : p.p2[last]; if(tors && r.p(.2)) { const G2& e = r.pick(p.tors2); q = q + e; t2 = t2 + e.mul(ls); } a.Q(r.p(.3) ? rerep(r, q) : q); }
            a.S(ls);
        }
        bool es = r.p(.5); for(int i = 0; i < extra; i++) { if(es) a.S(randScalar(r)); else if(kind == 0) a.P(p.p1[r.below(Pool::N)]); else a.Q(p.p2[r.below(Pool::N)]); }   // surplus terms of one list are ignored
        how = "known discrete logarithms"; expect = kind == 0 ? refVal(ref::gen1().mul(sum) + t1) : refVal(ref::gen2().mul(sum) + t2);
    } else {
        bool close = n > 0 && r.p(.6); int mode = r.below(3), li = r.below(Pool::N), lj = r.below(Pool::N);
        for(int i = 0; i < n - (close ? 1 : 0); i++) { if(!(mode == 1 && r.p(.6))) { li = r.below(Pool::N); lj = r.below(Pool::N); } int x = li, y = lj; bool neg = r.p(.3), ident = r.p(.05); a.P(ident && r.p(.5) ? G1{} : rerep(r, neg ? p.p1[x].neg() : p.p1[x])).Q(ident ? G2{} : rerep(r, p.p2[y])); Sc t = ref::mulr(p.k[x], p.k[y]); if(!ident) sum = neg ? ref::subr(sum, t) : ref::addr(sum, t); }
        if(close && !(sum == Sc{})) { a.P(ref::gen1().mul(sum).neg()).Q(ref::gen2()); sum = Sc{}; }
        AB b; how = "bilinearity: one pair with the summed exponent, no callback";
        if(sum == Sc{}) { how = "the exponents cancel"; } else b.P(ref::gen1().mul(sum)).Q(ref::gen2());
        expect = aloneCall(*w.h, "pairing", b); w.R.add("baselines");
    }
    return a;
}
void exec(const Plan& plan, Report& R, bool cancel) {
    aloneInit(); Ln wl(plan[0]); std::map<str,str> base; u64 live[4] = {}; int rounds = cancel ? 3 : 1; const Host& H = hosts[wl.n("host") % hosts.size()];
    struct Prepared { AB a; str e, how; }; std::map<str,Prepared> prep; mem::reset(); mem::ctl.track = cancel;
    for(int round = 0; round < rounds; round++) {
        World w(R); W = &w; w.h = &H; w.cancel = cancel; w.base = &base;
        for(auto& s : plan) { Ln l(s);
            if(l.verb == "task" || l.verb == "nested") { int id = l.n("id"); if(w.comps.count(id)) continue; Comp* c = new Comp(&w, id, l); c->late = l.n("late"); if(c->late) R.add("late_tasks");
                auto share = l.has("share") ? w.comps.find(l.n("share")) : w.comps.end();
                if(share != w.comps.end()) { Comp* o = share->second; c->l = o->l; c->kind = o->kind; c->h = o->h; c->ownH = false; c->expect = o->expect; c->how = o->how; R.add("shared_inputs"); }
                else { str key = fmt("%d", id); if(!prep.count(key)) { Prepared q; q.a = argsFor(l, w, q.e, q.how); prep[key] = q; } Prepared& q = prep[key]; Bytes ser = q.a.ser(); c->h = w.h->api->prepare(w.h->op(kinds[c->kind]), ser.data(), ser.size(), nullptr); if(!c->h) R.fail("harness", "prepare"); c->expect = q.e; c->how = q.how; }
                w.comps[id] = c; if(l.verb == "task") { w.fib.emplace_back(); w.fib.back().comp = c; } }
            else if(l.verb == "rr") w.rr = l.n("every", 1); else if(l.verb == "act") w.acts.insert({{(int)l.n("id"), l.n("j")}, l}); else if(l.verb == "throw") { if(l.n("last") > 0) w.lasts[l.n("id")] = {(u64)l.n("last"), (int)l.n("type")}; else w.throws_[{(int)l.n("id"), l.n("j")}] = l.n("type"); } }
        if(w.fib.empty()) { for(auto& c : w.comps) { if(c.second->ownH) w.h->api->destroy(c.second->h); delete c.second; } break; }
        for(size_t i = 0; i < w.fib.size(); i++) { Fiber& f = w.fib[i]; const size_t SZ = 1 << 20; f.stack = (char*)mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(f.stack, 4096, PROT_NONE); getcontext(&f.c); f.c.uc_stack.ss_sp = f.stack; f.c.uc_stack.ss_size = SZ; f.c.uc_link = nullptr; makecontext(&f.c, (void (*)())fiberMain, 1, (int)i); }
        w.cur = 0; Eh mine = *eh(); swapcontext(&w.main, &w.fib[0].c); *eh() = mine;
        for(auto& f : w.fib) { if(!f.done) w.bad("stuck", "a task did not finish"); munmap(f.stack, 1 << 20); }
        bool all = true; for(auto& c : w.comps) { if(c.second->ownH) w.h->api->destroy(c.second->h); delete c.second; } (void)all;
        if(w.vk.empty()) for(auto& s : plan) { Ln l(s); if(l.verb == "after") w.plainOp(l.s("op"), l.n("s"), "afterwards"); }
        W = nullptr; if(!w.vk.empty()) { mem::ctl.track = false; throw Violation{w.vk, H.name + ": " + w.vd}; }
        live[round] = mem::liveBlocks();
    }
    mem::ctl.track = false;
    if(cancel && rounds == 3 && live[0] < live[1] && live[1] < live[2]) R.fail("memory-lost", fmt("%s: blocks still held after the first, second and third execution of the same cancelled computations: %llu, %llu, %llu", H.name.c_str(), live[0], live[1], live[2]));
}
Reg reg2({"C02", [](u64 s, bool t) { return gen(s, t, false); }, [](const Plan& p, Report& r) { exec(p, r, false); }, {}, [] { pool(); opNames(); }});
Reg reg3({"C03", [](u64 s, bool t) { return gen(s, t, true); }, [](const Plan& p, Report& r) { exec(p, r, true); }, {}, [] { pool(); opNames(); }});
}
