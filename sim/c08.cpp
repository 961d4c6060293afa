// C08: replicas receive contributions in different orders over a faulty network, fold them in different groupings,
// gossip partial aggregates, crash and resume, and must agree with the exact sum.
#include "net.hpp"
namespace {
enum { PK, SIG, SK, WS1, WS2 };
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 8); Plan p; int kind = r.weighted({4, 3, 2, 3, 2}), nr = r.range(2, 4), nc = r.p(.1) ? r.below(3) : r.p(.12) ? r.range(20, thorough ? 120 : 50) : r.range(2, 14);
    p.push_back(fmt("!world seed=%llu kind=%d replicas=%d", (unsigned long long)r.next() % 100000000, kind, nr));
    u64 t = 0; static const char* what[] = {"pool", "pool", "pool", "pool", "repeat", "opposite", "identity", "torsion", "shifted", "double", "sumofprev", "unreduced"};
    for(int c = 0; c < nc; c++) { p.push_back(fmt("contrib c=%d what=%s s=%llu", c, what[r.below(12)], (unsigned long long)r.next() % 1000000)); }
    int extra = r.range(2, 10);
    vec<std::pair<u64,str>> ev;
    for(int c = 0; c < nc; c++) for(int q = 0; q < nr; q++) { if(r.p(.12)) continue; t = r.below(1000 * (1 + nc)); ev.push_back({t, fmt("deliver t=%llu r=%d c=%d enc=%d", (unsigned long long)t, q, c, (int)r.below(NENC + 2))}); if(r.p(.1)) ev.push_back({t + r.below(3000), fmt("deliver t=%llu r=%d c=%d enc=%d dup=1", (unsigned long long)t, q, c, (int)r.below(NENC))}); }
    for(int i = 0; i < extra; i++) { t = r.below(1000 * (1 + nc)); ev.push_back({t, fmt("flush t=%llu r=%d op=%d s=%llu", (unsigned long long)t, (int)r.below(nr), (int)r.below(7), (unsigned long long)r.next() % 1000000)}); }
    for(int i = 0; i < extra; i++) { t = r.below(1000 * (1 + nc)); ev.push_back({t, fmt("gossip t=%llu from=%d to=%d delay=%d enc=%d", (unsigned long long)t, (int)r.below(nr), (int)r.below(nr), (int)r.below(3000), (int)r.below(NENC))}); }
    for(int i = r.below(3); i > 0; i--) { t = r.below(1000 * (1 + nc)); ev.push_back({t, fmt("crash t=%llu r=%d", (unsigned long long)t, (int)r.below(nr))}); }
    std::stable_sort(ev.begin(), ev.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for(auto& e : ev) p.push_back(e.second);
    if(r.p(.12)) p.push_back(fmt("bulk n=%d s=%llu", r.p(.5) ? r.pick(vec<int>{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025}) : (int)r.range(50, thorough ? 9000 : 2500), (unsigned long long)r.next() % 1000000));
    return p;
}
struct Val3 { G1 a; G2 b; Sc s{}; };             // a value of the kind at hand (reference form)
void exec(const Plan& plan, Report& R) {
    const Pool& P = pool(); Ln w(plan[0]); int kind = w.n("kind"), nr = w.n("replicas", 2); Rng wr(w.n("seed"), 2);
    bool one = kind == PK || kind == WS1, sk = kind == SK;
    auto add = [&](const Val3& x, const Val3& y) { Val3 z; if(sk) z.s = ref::addr(x.s, y.s); else if(one) z.a = x.a + y.a; else z.b = x.b + y.b; return z; };
    auto txt = [&](const Val3& x) { return sk ? refVal(x.s) : one ? refVal(x.a) : refVal(x.b); };
    // contributions: a value and, for weighted sums, its weight
    struct C { Val3 v; Sc w{1}; Val3 val; bool over = false; }; std::map<int,C> cs; Val3 sumPrev;
    for(auto& line : plan) { Ln l(line); if(l.verb != "contrib") continue; Rng r(l.n("s"), 9); str k = l.s("what"); C c; int i = r.below(r.p(.5) ? 5 : Pool::N); Val3 v; v.a = P.p1[i]; v.b = P.p2[i]; v.s = P.k[i];
        C* prev = cs.empty() ? nullptr : &cs.begin()->second; if(!cs.empty()) { auto it = cs.begin(); std::advance(it, r.below(cs.size())); prev = &it->second; }
        if(k == "repeat" && prev) v = prev->v; else if(k == "opposite" && prev) { v.a = prev->v.a.neg(); v.b = prev->v.b.neg(); v.s = ref::negr(prev->v.s); }
        else if(k == "identity") v = Val3{}; else if(k == "torsion") { v.a = r.pick(P.tors1); v.b = r.pick(P.tors2); v.s = randSk(r); }
        else if(k == "shifted") { v.a = v.a + r.pick(P.tors1); v.b = v.b + r.pick(P.tors2); v.s = ref::Rr; ref::subto(v.s, Sc{1 + r.below(3)}); }
        else if(k == "double" && prev) { v.a = prev->v.a.dbl(); v.b = prev->v.b.dbl(); v.s = ref::addr(prev->v.s, prev->v.s); }
        else if(k == "sumofprev") v = r.p(.5) ? sumPrev : Val3{sumPrev.a.neg(), sumPrev.b.neg(), ref::negr(sumPrev.s)};
        else if(k == "unreduced") c.over = true;     // a share handed on as share + group order
        c.v = v; if(kind >= WS1) c.w = randScalar(r);
        c.val = v; if(kind == WS1) c.val.a = v.a.mul(c.w); if(kind == WS2) c.val.b = v.b.mul(c.w);
        sumPrev = add(sumPrev, c.val); cs[l.n("c")] = c; R.add("contrib_" + k); }
    struct Rep { const Host* h; vec<std::pair<int,Bytes>> pend; std::set<int> have; bool any = false; Bytes agg; Val3 val; std::set<int> in; Bytes disk; std::set<int> diskIn; };
    vec<Rep> N(nr); for(auto& n : N) n.h = &hostAt(wr.next());
    auto point = [&](Rng& r, const Val3& v) { return one ? ref::jacbe(rerep(r, v.a)) : ref::jacbe(rerep(r, v.b)); };
    auto push = [&](AB& a, const Bytes& b) { if(sk) a.sc.push_back([&] { Sc s; memcpy(s.data(), b.data(), 32); return s; }()); else if(one) a.p1.push_back(b); else a.p2.push_back(b); };
    Sim S;
    auto run = [&](Rep& n, const str& op, const AB& a) { Res s = call(*n.h, op, a); R.add("lib_calls"); if(!s.ok() || s.v().empty()) R.fail("no-aggregate", n.h->name + " " + op + " " + s.canon()); if(!s.intact) R.fail("arguments-modified", op); return s; };
    auto raw = [&](const Res& s) { Bytes b = s.bytes(); if(sk) { Sc v = s.sc(); b.assign((uint8_t*)v.data(), (uint8_t*)v.data() + 32); } return b; };
    auto flush = [&](Rep& n, int op, u64 sd) {
        Rng r(sd, 4); if(n.pend.empty() && (n.any || kind >= WS1)) { if(n.any) return; }
        // shuffle
        for(size_t i = n.pend.size(); i > 1; i--) std::swap(n.pend[i-1], n.pend[r.below(i)]);
        Val3 exp = n.any ? n.val : Val3{}; for(auto& q : n.pend) exp = add(exp, cs[q.first].val);
        str g = one ? "g1" : "g2", agg = one ? "aggregate_public_keys" : "aggregate_signatures"; Res s; AB a; str used;
        if(sk) { if(n.any) push(a, n.agg); for(auto& q : n.pend) push(a, q.second); used = "aggregate_secret_keys"; s = run(n, used, a); }
        else if(kind >= WS1) {
            used = g + "_weightedSum"; if(n.any && op % 2) { push(a, n.agg); a.S({1}); }
            for(auto& q : n.pend) { push(a, q.second); a.S(cs[q.first].w); }
            if(op == 3) { Rng z(sd, 5); (one ? a.p1 : a.p2).push_back(point(z, cs.empty() ? Val3{} : cs.begin()->second.v)); }   // surplus point without a weight is not part of the sum
            s = run(n, used, a);
            if(n.any && !(op % 2)) { AB b; push(b, s.bytes()); push(b, n.agg); used += " then add"; s = run(n, g + (op == 2 ? "_addAssign" : "_add"), b.I(0)); }
        }
        else if(op == 1) { used = agg + "_mask"; std::set<u64> decoys; if(n.any) { push(a, n.agg); a.I(1); } for(auto& q : n.pend) { while(r.p(.4)) { push(a, point(r, cs.begin()->second.v)); a.I(0); } push(a, q.second); a.I(1); } if(r.p(.5) && !cs.empty()) { push(a, point(r, cs.rbegin()->second.v)); a.I(0); } s = run(n, used, a); R.add("masked"); }
        else if(op == 2) { used = agg + "_all"; if(n.any) push(a, n.agg); for(auto& q : n.pend) push(a, q.second); s = run(n, used, a); }
        else if(op == 3 || op == 4) {                          // one by one
            used = "incremental add"; Bytes cur = n.any ? n.agg : point(r, Val3{}); s.st = 0; bool did = false;
            for(auto& q : n.pend) { AB b; if(r.p(.5)) { push(b, cur); push(b, q.second); } else { push(b, q.second); push(b, cur); } s = run(n, g + (op == 3 ? "_add" : "_addAssign"), b.I(0)); cur = s.bytes(); did = true; }
            if(!did) { AB b; push(b, cur); push(b, point(r, Val3{})); s = run(n, g + "_add", b); }
        }
        else if(op == 5) { used = "aggregate then retract"; Bytes dec = point(r, cs.empty() ? Val3{} : cs.begin()->second.v); if(n.any) push(a, n.agg); push(a, dec); for(auto& q : n.pend) push(a, q.second); s = run(n, agg, a);
            AB b; push(b, s.bytes()); push(b, r.p(.5) ? dec : point(r, cs.empty() ? Val3{} : cs.begin()->second.v)); s = run(n, g + (r.p(.5) ? "_subtract" : "_subtractAssign"), b.I(0)); }
        else { used = agg; if(n.any) push(a, n.agg); for(auto& q : n.pend) push(a, q.second); s = run(n, used, a); }
        str got = s.canon(); R.add("aggregations"); R.see(got);
        R.state(hstr(used) ^ mix(n.pend.size() * 64 + kind * 8 + n.any) ^ mix(n.h - &N[0].h[0]));
        if(got != txt(exp)) R.fail("wrong-aggregate", fmt("host %s %s of %zu contributions%s at t=%llu: got %s expected %s", n.h->name.c_str(), used.c_str(), n.pend.size(), n.any ? " and a partial aggregate" : "", (unsigned long long)S.now, got.substr(0, 60).c_str(), txt(exp).substr(0, 60).c_str()));
        for(auto& q : n.pend) n.in.insert(q.first); n.pend.clear(); n.agg = raw(s); n.val = exp; n.any = true; n.disk = n.agg; n.diskIn = n.in;
    };
    auto deliver = [&](Rep& n, int c, int enc) {
        if(!cs.count(c) || n.have.count(c)) { R.add("duplicate_ignored"); return; }
        Bytes b; Rng r(c * 31 + enc, 6);
        if(sk) { Bytes z = ref::be32(cs[c].v.s); AB a; a.M(z).I(0); Res s = run(n, "sk_from_bytes", a); Sc v = s.sc(); if(v != cs[c].v.s) R.fail("wrong-decode", "sk_from_bytes"); if(cs[c].over) { ref::addto(v, ref::Rr); R.add("fault_unreduced_share"); } b.assign((uint8_t*)v.data(), (uint8_t*)v.data() + 32); }
        else if(enc >= NENC) b = point(r, cs[c].v);
        else { Bytes z = one ? refEnc(enc >= JACBE ? rerep(r, cs[c].v.a) : cs[c].v.a, enc) : refEnc(enc >= JACBE ? rerep(r, cs[c].v.b) : cs[c].v.b, enc); auto d = libDec(*n.h, R, one ? 1 : 2, z, enc, true); if(!d) R.fail("contribution-rejected", encName(enc)); b = *d; }
        n.have.insert(c); n.pend.push_back({c, b}); R.add("delivered");
    };
    for(auto& line : plan) {
        Ln l(line);
        if(l.verb == "deliver") S.at(l.n("t"), [&, l] { if(l.n("dup")) R.add("fault_dup"); deliver(N[l.n("r") % nr], l.n("c"), l.n("enc")); });
        else if(l.verb == "flush") S.at(l.n("t"), [&, l] { flush(N[l.n("r") % nr], l.n("op"), l.n("s")); });
        else if(l.verb == "crash") S.at(l.n("t"), [&, l] { Rep& n = N[l.n("r") % nr]; R.add("fault_crash_restart"); n.pend.clear(); n.have = n.in = n.diskIn; if(n.diskIn.empty()) { n.any = false; n.val = Val3{}; n.agg.clear(); } });
        else if(l.verb == "gossip") S.at(l.n("t"), [&, l] { int f = l.n("from") % nr, to = l.n("to") % nr; if(f == to || !N[f].any) return; std::set<int> in = N[f].in; Val3 v = N[f].val; Bytes b = N[f].agg; int enc = l.n("enc");
            if(!sk && !(kind >= WS1 && false)) b = libEnc(*N[f].h, R, one ? 1 : 2, b, enc);
            R.add("gossip"); if(l.n("delay") > 1500) R.add("fault_delay");
            S.at(S.now + l.n("delay"), [&, to, in, v, b, enc] { Rep& n = N[to]; for(int c : in) if(n.have.count(c)) { R.add("gossip_overlap"); return; }
                // partial merge: the received aggregate stands for all its contributions
                Bytes d = b; if(!sk) { auto x = libDec(*n.h, R, one ? 1 : 2, b, enc, true); if(!x) R.fail("aggregate-rejected", encName(enc)); d = *x; }
                if(!n.any) { n.agg = d; n.val = v; n.any = true; } else { AB a; push(a, n.agg); push(a, d); Res s = run(n, sk ? "aggregate_secret_keys" : one ? "g1_add" : "g2_add", a); n.val = add(n.val, v); if(s.canon() != txt(n.val)) R.fail("wrong-merge", n.h->name + " " + s.canon().substr(0, 60)); n.agg = raw(s); R.see(s.canon()); }
                for(int c : in) { n.in.insert(c); n.have.insert(c); } n.disk = n.agg; n.diskIn = n.in; R.add("gossip_merged"); }); });
    }
    S.run(R);
    for(auto& line : plan) { Ln l(line); if(l.verb != "bulk") continue;      // many contributions at once, handed to two replicas in different orders
        Rng q(l.n("s"), 14); size_t n = std::min<u64>(l.n("n"), 20000); vec<std::tuple<int,bool,Sc,bool>> b; Sc sum{}; int last = 0, style = q.below(4);
        for(size_t i = 0; i < n; i++) { if(style != 1 || q.p(.2)) last = q.below(Pool::N); bool neg = q.p(style == 2 ? .5 : .1), out = kind <= SIG && q.p(style == 3 ? .3 : 0); Sc w = kind >= WS1 ? q.p(.1) ? Sc{} : randScalar(q) : Sc{1}; b.push_back({last, neg, w, out}); if(!out) { Sc t = kind >= WS1 ? ref::mulr(P.k[last], w) : P.k[last]; sum = neg ? ref::subr(sum, t) : ref::addr(sum, t); } }
        for(int k = 0; k < 2; k++) { AB a; for(auto& [i, neg, w, out] : b) { if(sk) a.S(neg ? ref::negr(P.k[i]) : P.k[i]); else if(one) a.P(neg ? P.p1[i].neg() : P.p1[i]); else a.Q(neg ? P.p2[i].neg() : P.p2[i]); if(kind >= WS1) a.S(w); else if(!sk && style == 3) a.I(!out); }
            str op = sk ? "aggregate_secret_keys" : kind == WS1 ? "g1_weightedSum" : kind == WS2 ? "g2_weightedSum" : str(one ? "aggregate_public_keys" : "aggregate_signatures") + (style == 3 ? "_mask" : q.p(.3) ? "_all" : ""); Rep& v = N[q.below(nr)]; Res s = run(v, op, a); str e = sk ? refVal(sum) : one ? refVal(ref::gen1().mul(sum)) : refVal(ref::gen2().mul(sum)); R.see(s.canon()); R.add("bulk_sums");
            if(s.canon() != e) R.fail("wrong-aggregate", fmt("%s: %s of %zu contributions: ", v.h->name.c_str(), op.c_str(), n) + s.canon().substr(0, 80) + " instead of " + e.substr(0, 80));
            for(size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[q.below(i)]); } }
    Val3 total; for(auto& c : cs) total = add(total, c.second.val);
    for(int i = 0; i < nr; i++) { for(auto& c : cs) if(!N[i].have.count(c.first)) { R.add("fault_loss_retransmitted"); deliver(N[i], c.first, (c.first + i) % (NENC + 2)); } flush(N[i], (wr.next() + i) % 7, wr.next());
        if(!N[i].any) continue;
        Bytes e; if(!sk) { e = libEnc(*N[i].h, R, one ? 1 : 2, N[i].agg, COMP); R.see(e.data(), e.size()); if(e != (one ? ref::compressed(total.a) : ref::compressed(total.b))) R.fail("replicas-diverge", fmt("replica %d on %s", i, N[i].h->name.c_str())); }
        else { if(txt(N[i].val) != txt(total)) R.fail("replicas-diverge", ""); AB a; a.S(total.s); Res s = run(N[i], "public_key", a); G1 x; for(auto& c : cs) x = x + ref::gen1().mul(c.second.v.s); if(s.canon() != refVal(x)) R.fail("key-of-sum-differs-from-sum-of-keys", N[i].h->name); R.see(s.canon()); } }
}
Reg reg({"C08", gen, exec, {"asm", "asmnx", "port"}, [] { pool(); }});
}
