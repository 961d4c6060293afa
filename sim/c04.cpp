// C04: time is simulated by counting executed basic blocks of the library (compiler instrumentation); the cost of one
// point addition is measured in the same units. Between two callbacks of a weighted sum the clock may advance by at most
// LIMIT additions, whatever the number and the values of the terms.
#include "net.hpp"
static u64 ticks = 0;
extern "C" void __sanitizer_cov_trace_pc() { ticks++; }
namespace {
constexpr double LIMIT = 1200;                   // "about a thousand" additions; the code stays below 800
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 4); Plan p; p.push_back("!world");
    int m = r.range(1, 4);
    for(int i = 0; i < m; i++) {
        if(r.p(.25)) { p.push_back(fmt("pair n=%d s=%llu mode=%d", (int)(r.p(.5) ? r.range(20, 22) : r.range(20, thorough ? 300 : 80)), (unsigned long long)r.next() % 1000000, (int)r.below(3))); continue; }
        int kind = r.p(.65) ? 0 : 1, n;
        switch(r.below(8)) { case 0: n = r.range(1, 3); break; case 1: n = r.range(4, 31); break; case 2: n = r.range(30, 70); break; case 3: n = r.range(250, 262); break; case 4: n = r.range(500, 530); break; case 5: n = r.range(70, 1200); break;
            case 6: n = r.range(1500, kind ? 2500 : 5200); break; default: n = r.range(100, 600); }
        if(thorough && r.p(.06)) n = r.range(5000, kind ? 16000 : 66000);
        int sm = r.below(12); if(r.p(.06)) { n = r.range(5000, kind ? 40000 : 120000); sm = r.p(.7) ? 10 : 2; }   // very many terms, with scalars of a few bits only so that the sum is quick
        str L = fmt("sum kind=%d n=%d s=%llu points=%d scalars=%d", kind, n, (unsigned long long)r.next() % 1000000, (int)r.below(6), sm);
        auto J = [&] { return (int)(r.p(.5) ? r.below(4) : r.below(200)); };
        if(r.p(.2)) L += fmt(" nest=%d nn=%d nk=%d", J(), (int)(r.p(.5) ? r.range(1, 40) : r.range(250, 600)), (int)(r.p(.7) ? kind : !kind));   // inside the callback another sum (with a callback of its own) is computed
        if(r.p(.1)) L += fmt(" other=%d op=%s", J(), r.pick(opNames()).c_str());                                                             // ... or another operation
        if(r.p(.1)) L += fmt(" throw=%d", J());                                                                                              // ... or the computation is cancelled
        p.push_back(L);
    }
    return p;
}
struct Meter { u64 start = 0, last = 0, maxGap = 0, n = 0, first = 0, end = 0, away = 0; std::function<void(u64)> act; };   // away: time spent inside the callback
void onYield(void* v) { Meter& m = *(Meter*)v; u64 t = ticks; u64 g = t - m.last; if(!m.n) m.first = g; if(g > m.maxGap) m.maxGap = g; m.n++; struct Back { Meter& m; u64 t; ~Back() { m.away += ticks - t; m.last = ticks; } } back{m, t}; if(m.act) m.act(m.n - 1); }
void onEnd(void* v) { ((Meter*)v)->end = ticks; }
void onBegin(void* v) { Meter& m = *(Meter*)v; m.last = m.start = ticks; }
double unit[2];
void exec(const Plan& plan, Report& R) {
    const Host& h = hosts[0]; const Pool& p = pool();
    for(int k = 0; k < 2; k++) {     // one generic addition: aggregating 40 keys rather than 20
        auto agg = [&](int n) { AB a; Rng r(5); for(int i = 0; i < n; i++) if(k == 0) a.P(rerep(r, p.p1[i])); else a.Q(rerep(r, p.p2[i])); Meter m; BlsHooks hk{}; hk.ctx = &m; hk.begin = onBegin; hk.end = onYield; call(h, k ? "aggregate_signatures" : "aggregate_public_keys", a, &hk); return m.maxGap; };
        u64 x = agg(20), y = agg(40); if(y <= x) R.fail("harness", "the library is not instrumented"); unit[k] = (y - x) / 20.0; }
    for(auto& s : plan) {
        Ln l(s); if(l.verb != "sum" && l.verb != "pair") continue; Rng r(l.n("s"), 44); AB a; int n = l.n("n");
        if(l.verb == "sum") {
            int k = l.n("kind"), pm = l.n("points"), sm = l.n("scalars"), i0 = r.below(Pool::N); Sc same = randSk(r); int per = 1 << r.range(2, 9), ph = r.p(.6) ? 0 : r.below(per); double dens = r.p(.5) ? .02 : .3; int bit = r.below(248), wid = r.range(1, 8);
            for(int i = 0; i < n; i++) {
                int q = pm == 1 ? i0 : r.below(Pool::N); bool at = i % per == ph, id = (pm == 2 && r.p(.3)) || (pm == 4 && at) || (pm == 5 && !at), neg = r.p(.3) && pm != 1;
                if(k == 0) a.P(id ? G1{} : neg ? p.p1[q].neg() : p.p1[q]); else a.Q(id ? G2{} : neg ? p.p2[q].neg() : p.p2[q]);
                Sc c{}; switch(sm) { case 0: c = randScalar(r); break; case 1: c = same; break; case 2: c = Sc{r.below(2)}; break; case 3: c[3] = r.next() | 1ull << 63; break; case 4: for(auto& x : c) x = ~0ull; break; case 5: for(auto& x : c) x = r.next(); break;
                    case 6: case 7: if(!at) c = sm == 6 ? same : randScalar(r); break;                                     // zero at regular places
                    case 8: if(at) c = randScalar(r); break;                                                              // nonzero at regular places only
                    case 9: if(r.p(dens)) c = randScalar(r); break;                                                       // sparse
                    case 10: { u64 d = r.next() & ((1 << wid) - 1); c[bit / 64] = d << bit % 64; if(bit % 64 > 56) c[bit / 64 + 1] = d >> (64 - bit % 64); break; }   // one digit
                    default: if(!at) for(auto& x : c) x = ~0ull; }
                a.S(c);
            }
            if(r.p(.15)) for(int i = r.below(600); i >= 0; i--) { if(n % 2) a.S(randScalar(r)); else if(k == 0) a.P(p.p1[i % Pool::N]); else a.Q(p.p2[i % Pool::N]); }   // lists of different length: the longer end is ignored
            str where = fmt("%s of %d terms (points %d, scalars %d): ", k ? "G2 sum" : "G1 sum", n, (int)l.n("points"), (int)l.n("scalars"));
            auto metered = [&](int k, const AB& a, Meter& m, const str& where) {
                BlsHooks hk{}; hk.ctx = &m; hk.begin = onBegin; hk.yield = onYield; hk.end = onEnd;
                note("weighted sum"); Res x = call(h, k ? "g2_weightedSum" : "g1_weightedSum", a, &hk); bool cancelled = x.st == BLS_FOREIGN_EXC || x.st == BLS_STD_EXC; if(cancelled) return;
                u64 total = m.end - m.start - m.away, tail = m.end - m.last; double g = std::max(m.maxGap, tail) / unit[k], f = m.first / unit[k];
                R.add("sums"); R.add("callbacks", m.n); R.add("sim_ms", total / unit[k] / 1000); R.see(m.n); R.see(m.maxGap); R.see(total); R.state(mix(n) ^ mix(m.n * 4 + k)); R.add("max_gap_in_additions", 0); u64& mx = R.cnt["max_gap_in_additions"]; mx = std::max(mx, (u64)g);
                if(x.st) R.fail("failed", where + x.canon());
                if(m.n == 0) R.fail("never-called-back", where + fmt("work of %.0f additions without a callback", total / unit[k]));
                if(f > 400) R.fail("late-first-callback", where + fmt("first callback after the work of %.0f additions", f));
                if(g > LIMIT) R.fail("no-callback-for-too-long", where + fmt("the work of %.0f additions passes without a callback (%llu callbacks in all, %.0f additions in all)", g, (unsigned long long)m.n, total / unit[k])); };
            Meter m; std::exception_ptr pend; u64 nj = l.n("nest", 1u << 30), oj = l.n("other", 1u << 30), tj = l.n("throw", 1u << 30); int nk = l.n("nk"), nn = l.n("nn");
            m.act = [&](u64 j) {
                if(pend) return; if(j == nj) try { R.add("fault_sum_inside_callback"); AB b; Rng q(l.n("s"), 45); for(int i = 0; i < nn; i++) { int x = q.below(Pool::N); if(nk) b.Q(p.p2[x]); else b.P(p.p1[x]); b.S(randScalar(q)); } Meter mm; metered(nk, b, mm, fmt("sum of %d terms inside callback %llu of a ", nn, (unsigned long long)j) + where); } catch(Violation&) { pend = std::current_exception(); return; }
                if(j == oj && h.op(l.s("op")) >= 0) { R.add("fault_operation_inside_callback"); call(h, l.s("op"), makeOp(l.s("op"), l.n("s")).a); }
                if(j == tj) { R.add("fault_cancelled"); throw CancelToken{j, ~j}; } };
            metered(k, a, m, where); if(pend) std::rethrow_exception(pend);
            R.add("max_terms", 0); u64& mt = R.cnt["max_terms"]; mt = std::max(mt, (u64)n);
        } else {
            int md = l.n("mode"), i0 = r.below(Pool::N); for(int i = 0; i < n; i++) { int q = md == 1 ? i0 : r.below(Pool::N); a.P(p.p1[q]).Q(p.p2[md == 1 ? i0 : r.below(Pool::N)]); }
            for(const char* op : {"pairing", "pairing_raw", "miller_loop"}) { Meter m; BlsHooks hk{}; hk.ctx = &m; hk.begin = onBegin; hk.yield = onYield; note(op); Res x = call(h, op, a, &hk); R.add("products"); R.see(m.n); R.state(mix(n) ^ mix(m.n * 4 + 2)); R.add("callbacks", m.n);
                if(x.st) R.fail("failed", op + x.canon()); if(!m.n) R.fail("never-called-back", fmt("%s of %d terms", op, n)); if(r.p(.5)) break; }
        }
    }
}
Reg reg({"C04", gen, exec, {}, [] { pool(); opNames(); }});
}
