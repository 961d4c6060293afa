// C15: one computation split over several parties. Workers compute partial pairing products, partial sums, shared keys or
// threshold shares on different hosts; parts are lost, delayed, duplicated, reassigned after crashes, withdrawn and replaced,
// and combined in order of arrival. The combined result must be the result of doing it in one place.
#include "net.hpp"
namespace {
enum { PROD, DH, SUM, THRESH };
typedef vec<L6> GT;
Sc invr(const Sc& a) { Sc e = ref::Rr, r{1}; ref::subto(e, Sc{2}); for(int i = 254; i >= 0; i--) { r = ref::mulr(r, r); if(e[i/64] >> (i%64) & 1) r = ref::mulr(r, a); } return r; }
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 15); Plan p; int mode = r.weighted({5, 2, 3, 4}), nw = r.range(2, 4);
    int parts = r.range(1, thorough ? 9 : 5), n = mode == PROD ? (r.p(.12) ? r.range(18, 26) : r.below(9)) : mode == SUM ? (r.p(.2) ? r.range(30, thorough ? 400 : 120) : r.below(14)) : 0;
    p.push_back(fmt("!world seed=%llu mode=%d workers=%d parts=%d group=%d", (unsigned long long)r.next() % 100000000, mode, nw, parts, (int)r.range(1, 2)));
    auto S = [&] { return (unsigned long long)(r.next() % 1000000); };
    if(mode == PROD || mode == SUM) {
        static const char* what[] = {"pool", "pool", "pool", "identity", "repeat", "opposite", "same"};
        for(int i = 0; i < n; i++) p.push_back(fmt("item i=%d part=%d what=%s s=%llu", i, (int)r.below(parts), what[r.below(7)], S()));
        if(n && r.p(.5)) p.push_back(fmt("close part=%d", (int)r.below(parts)));                       // one more item makes the whole the identity
        for(int k = 0; k < parts; k++) { p.push_back(fmt("part p=%d w=%d how=%d enc=%d start=%d work=%d weight=%d s=%llu", k, (int)r.below(nw), (int)r.below(6), (int)r.below(10), (int)r.below(500), (int)r.range(1, 400), r.p(.35) ? (int)r.range(1, 5) : 0, S()));
            if(r.p(.25)) p.push_back(fmt("lose p=%d n=%d", k, (int)r.range(1, 2))); if(r.p(.25)) p.push_back(fmt("dup p=%d after=%d", k, (int)r.below(800))); if(r.p(.2)) p.push_back(fmt("delay p=%d by=%d", k, (int)r.range(100, 5000)));
            if(r.p(.15)) p.push_back(fmt("withdraw p=%d at=%d how=%d replace=%d s=%llu", k, (int)r.range(300, 4000), (int)r.below(3), (int)r.below(2), S())); }
        for(int i = r.below(3); i > 0; i--) p.push_back(fmt("crash w=%d at=%d", (int)r.below(nw), (int)r.below(1500)));
        for(int i = r.below(2); i > 0; i--) p.push_back(fmt("restart at=%d enc=%d", (int)r.below(3000), (int)r.below(10)));   // the coordinator, on other hardware
    } else if(mode == DH) {
        for(int i = 0; i < 3; i++) p.push_back(fmt("party i=%d kind=%d s=%llu how=%d enc=%d", i, (int)r.below(8), S(), (int)r.below(8), (int)r.below(NENC)));
        for(int i = r.below(3); i > 0; i--) p.push_back(fmt("again i=%d how=%d s=%llu", (int)r.below(3), (int)r.below(8), S()));
    } else {
        int m = r.range(2, thorough ? 8 : 5), t = r.range(1, m), d = r.range(1, 3); p.push_back(fmt("!group m=%d t=%d dealers=%d msg=%d", m, t, d, (int)r.below(40)));
        for(int i = 0; i < d; i++) { p.push_back(fmt("dealer i=%d s=%llu kind=%d", i, S(), (int)r.below(6))); }
        for(int j = 0; j < m; j++) { if(r.p(.12)) p.push_back(fmt("lost j=%d", j)); p.push_back(fmt("signer j=%d host=%d at=%d enc=%d", j, (int)r.below(16), (int)r.below(2000), (int)r.below(NENC))); if(r.p(.2)) p.push_back(fmt("garble j=%d how=%d s=%llu", j, (int)r.below(4), S())); if(r.p(.2)) p.push_back(fmt("crash w=%d at=%d", j, (int)r.below(2000))); if(r.p(.15)) p.push_back(fmt("dup p=%d after=%d", j, (int)r.below(800))); }
        for(int i = r.range(1, 3); i > 0; i--) p.push_back(fmt("combine host=%d how=%d s=%llu", (int)r.below(16), (int)r.below(4), S()));
    }
    return p;
}
struct W { Report& R; const Plan& plan; Ln w; int nw; Rng wr; const Pool& P = pool(); Sim S;
    W(const Plan& p, Report& r) : R(r), plan(p), w(p[0]), nw(w.n("workers", 2)), wr(w.n("seed"), 2) {}
    Res run(const Host& h, const str& op, const AB& a) { Res s = call(h, op, a); R.add("lib_calls"); if(!s.ok() || s.v().empty()) R.fail("no-result", h.name + " " + op + " " + s.canon().substr(0, 100)); if(!s.intact) R.fail("arguments-modified", op); R.see(s.raw.data(), s.raw.size()); return s; }
    GT gt(const Res& s) { GT g; for(auto& v : s.v()) { Fp f; if(v.tag != 'F' || !Fp::parse(v.b.data(), f)) R.fail("not-a-field-element", s.canon().substr(0, 60)); g.push_back(f.d); } if(g.size() != 12) R.fail("harness", "gt"); return g; }
    static void put(AB& a, const GT& g) { for(auto& l : g) a.F(l); }
    GT one() { GT g(12); g[0] = Fp::one().d; return g; }
    static str txt(const GT& g) { str s; for(auto& l : g) { Fp f; f.d = l; uint8_t b[48]; f.be(b); s += "F:" + hexn(b, 48) + ";"; } return s; }
    // a target-group element through its wire form, from one host to another
    GT ship(const Host& from, const Host& to, const GT& g, int enc) {
        if(enc >= 8) return g;
        AB a; put(a, g); bool raw = enc & 2; a.I(raw); Res s = run(from, "fp12_toBytes", a); auto v = s.v(); if(v.size() != 2) R.fail("harness", "fp12_toBytes"); Bytes b = v[enc & 1].b;
        AB d; d.M(b).I(1).I(raw); Res x = run(to, enc & 1 ? "fp12_fromLE" : "fp12_fromBE", d); if(x.none()) R.fail("part-rejected", to.name + " rejects the encoded part"); Res y = x; GT o; auto vs = x.v(); for(int i = 0; i < 12; i++) { Fp f; if(vs.size() < 12 || !Fp::parse(vs[i].b.data(), f)) R.fail("not-a-field-element", "decoded"); o.push_back(f.d); } return o; }
    GT mul(const Host& h, const GT& x, const GT& y) { AB a; put(a, x); put(a, y); a.I(0); Res s = run(h, "fp12_mul", a); auto v = s.v(); if(v.size() != 24) R.fail("harness", "fp12_mul"); Res p = s; GT o, q; for(int i = 0; i < 24; i++) { Fp f; Fp::parse(v[i].b.data(), f); (i < 12 ? o : q).push_back(f.d); } return x[3][0] & 1 ? o : q; }
    GT sqr(const Host& h, const GT& x) { AB a; put(a, x); auto v = run(h, "fp12_sqr", a).v(); GT o; for(int i = 0; i < 12; i++) { Fp f; Fp::parse(v[i].b.data(), f); o.push_back(f.d); } return o; }
    GT pow(const Host& h, const GT& x, const Sc& e, int how) { AB a; put(a, x); a.S(e).I(how); return gt(run(h, "gt_exp", a)); }
    GT inv(const Host& h, const GT& x, int how) { AB a; put(a, x); a.I(how); return gt(run(h, "gt_inv", a)); }
    GT fe(const Host& h, const GT& x) { AB a; put(a, x); return gt(run(h, "final_exp", a)); }
    void judge(const Host& h, const GT& g, const Sc& sum, const str& what) {                // expected: the pairing of the generators to the known exponent, computed elsewhere
        str e; if(sum == Sc{}) e = txt(one()); else { AB b; b.P(ref::gen1().mul(sum)).Q(ref::gen2()); e = aloneCall(h, "pairing", b); R.add("baselines"); }
        if(txt(g) != e) R.fail("split-differs-from-whole", h.name + " " + what + ": " + txt(g).substr(0, 70) + " instead of " + e.substr(0, 70));
        AB a; put(a, g); Res s = run(h, "gt_check", a); if(s.boolean(0) != 1) R.fail("result-not-in-target-group", h.name + " " + what); if((s.boolean(1) == 1) != (sum == Sc{}) || (s.boolean(2) == 1) != (sum == Sc{})) R.fail("wrong-verdict", h.name + " " + what);
        // told apart from its inverse and from other elements, recognised as itself
        GT i = inv(h, g, 0); AB c; put(c, g); put(c, i); Res t = run(h, "gt_equal", c); bool same = g == i; if((t.boolean(0) == 1) != same || (t.boolean(1) == 1) != same || t.boolean(2) != 1 || t.boolean(3) != 0) R.fail("wrong-verdict", h.name + " comparing with the inverse, " + what);
        GT o = mul(h, g, inv(h, g, 1)); if(txt(o) != txt(one())) R.fail("inverse-wrong", h.name + " " + what); R.add("judged"); }
    void prod(); void sum(); void dh(); void thresh();
};
struct Part { int p, w, how, enc, start, work, weight; u64 s; int lose = 0, delay = 0; vec<int> dups; };
struct Item { G1 a; G2 b; Sc k; Sc c{1}; };
struct Coord { std::set<int> have; };
void W::prod() {
    std::map<int,vec<Item>> items; std::map<int,Part> parts; Sc total{}; vec<Item> all; vec<int> hst; for(int i = 0; i < 8; i++) hst.push_back(wr.next() % hosts.size());
    for(auto& s : plan) { Ln l(s); if(l.verb == "part") { Part q{(int)l.n("p"), (int)(l.n("w") % nw), (int)l.n("how"), (int)l.n("enc"), (int)l.n("start"), (int)l.n("work", 1), (int)l.n("weight"), l.n("s")}; parts[q.p] = q; } }
    if(parts.empty()) return;
    auto partOf = [&](int k) -> int { return parts.count(k) ? k : parts.begin()->first; };
    auto weight = [&](const Part& q) { Rng r(q.s, 3); switch(q.weight) { case 0: return Sc{1}; case 1: return Sc{r.below(2)}; case 2: return Sc{r.next()}; case 3: return Sc{r.next(), r.next()}; case 4: return ref::negr(Sc{1 + r.below(3)}); default: return randScalar(r); } };
    for(auto& s : plan) { Ln l(s); if(l.verb != "item") continue; Rng r(l.n("s"), 5); str what = l.s("what"); int x = r.below(r.p(.4) ? 4 : Pool::N), y = r.below(r.p(.4) ? 4 : Pool::N); Item it{P.p1[x], P.p2[y], ref::mulr(P.k[x], P.k[y])};
        if(what == "identity") { if(r.p(.5)) it.a = G1{}; else it.b = G2{}; it.k = Sc{}; } else if(!all.empty() && (what == "repeat" || what == "opposite")) { it = all[r.below(all.size())]; if(what == "opposite") { if(r.p(.5)) it.a = it.a.neg(); else it.b = it.b.neg(); it.k = ref::negr(it.k); } } else if(what == "same") { it.b = P.p2[x]; it.k = ref::mulr(P.k[x], P.k[x]); }
        all.push_back(it); Part& q = parts[partOf(l.n("part"))]; items[q.p].push_back(it); total = ref::addr(total, ref::mulr(it.k, weight(q))); }
    for(auto& s : plan) { Ln l(s); if(l.verb != "close" || total == Sc{}) continue; Part& q = parts[partOf(l.n("part"))]; Sc wt = ref::modr(weight(q)); if(wt == Sc{}) continue; Sc k = ref::mulr(ref::negr(total), invr(wt)); items[q.p].push_back({ref::gen1().mul(k), ref::gen2(), k}); total = Sc{}; R.add("closed"); }
    for(auto& s : plan) { Ln l(s); auto it = parts.find(l.n("p")); if(it == parts.end()) continue; if(l.verb == "lose") it->second.lose = l.n("n"); else if(l.verb == "delay") it->second.delay += l.n("by"); else if(l.verb == "dup") it->second.dups.push_back(l.n("after")); }
    GT accM = one(), accG = one(); std::set<int> have, done; vec<u64> up(nw, 0); const Host* C = &hostAt(hst[7]); vec<int> epoch(nw, 0); std::map<int,std::pair<bool,GT>> got; Rng z(w.n("seed"), 9);
    auto compute = [&](const Host& h, const Part& q, int how, u64 sd, bool& gtv) -> GT {
        Rng r(sd, 6); AB a; Sc wt = weight(q); bool pre = how == 3 || how == 4; vec<Item> v = items[q.p]; for(size_t i = v.size(); i > 1; i--) std::swap(v[i-1], v[r.below(i)]);
        for(auto& it : v) { G1 x = it.a; G2 y = it.b; if(pre && r.p(.5)) { AB b; b.P(rerep(r, x)).S(wt); x = run(h, "g1_scale", b).g1(); } else if(pre) { AB b; b.Q(rerep(r, y)).S(wt); y = run(h, "g2_scale", b).g2(); } a.P(rerep(r, x)).Q(rerep(r, y)); }
        gtv = how % 2; GT g;
        if(how == 5) { g = one(); for(size_t i = 0; i < a.p1.size(); i++) { AB b; b.p_(a.p1[i]).q_(a.p2[i]); g = mul(h, g, gt(run(h, "pairing", b))); } }       // pair by pair
        else g = gt(run(h, gtv ? (r.p(.5) ? "pairing" : "pairing_raw") : "miller_raw", a));
        if(!pre && q.weight) { if(gtv) g = pow(h, g, wt, r.below(3)); else { g = pow(h, g, wt, 1); } }
        R.add("parts_computed"); R.state(mix(how * 64 + v.size()) ^ mix(q.weight) ^ hstr(h.name)); return g; };
    std::function<void(int,u64,int,int)> assign; auto* P2 = &parts;
    auto arrive = [&](int p, bool gtv, GT g, const Host* from) { if(have.count(p)) { R.add("fault_dup_ignored"); return; } have.insert(p); g = ship(*from, *C, g, parts[p].enc); got[p] = {gtv, g}; GT& acc = gtv ? accG : accM; bool same = acc == g; acc = same && z.p(.5) ? sqr(*C, g) : z.p(.5) ? mul(*C, acc, g) : mul(*C, g, acc); R.add("combined"); };
    assign = [&](int p, u64 t, int wk, int attempt) { Part& q = (*P2)[p]; S.at(t, [&, p, wk, attempt] { Part& q = (*P2)[p]; if(have.count(p)) return; const Host& h = hostAt(hst[wk % 6]); int ep = epoch[wk % nw]; bool gtv = false; GT g = compute(h, q, attempt ? (q.how + 2 * attempt) % 6 : q.how, q.s + attempt * 7, gtv);
            u64 fin = S.now + q.work; const Host* from = &h;
            if(q.lose > attempt) R.add("fault_loss"); else { u64 arr = fin + q.delay; if(q.delay) R.add("fault_delay"); S.at(arr, [&, p, gtv, g, from, ep, wk] { if(epoch[wk % nw] != ep) { R.add("fault_lost_in_crash"); return; } arrive(p, gtv, g, from); }); for(int d : q.dups) S.at(arr + d, [&, p, gtv, g, from] { R.add("fault_dup"); arrive(p, gtv, g, from); }); }
            S.at(S.now + 3000, [&, p, wk, attempt] { if(!have.count(p)) { R.add("reassigned"); assign(p, S.now, wk + 1, attempt + 1); } }); }); (void)q; };
    for(auto& q : parts) assign(q.first, q.second.start, q.second.w, 0);
    for(auto& s : plan) { Ln l(s);
        if(l.verb == "crash") S.at(l.n("at"), [&, l] { epoch[l.n("w") % nw]++; R.add("fault_crash"); });
        else if(l.verb == "restart") S.at(l.n("at"), [&, l] { const Host* o = C; C = &hosts[(C - &hosts[0] + 1 + l.n("enc") % 2) % hosts.size()]; accM = ship(*o, *C, accM, l.n("enc") % 8); accG = ship(*o, *C, accG, (l.n("enc") + 1) % 8); R.add("fault_coordinator_restart"); });
        else if(l.verb == "withdraw") S.at(l.n("at"), [&, l] { int p = l.n("p"); auto it = got.find(p); if(it == got.end() || done.count(p)) return; done.insert(p); bool gtv = it->second.first; GT& acc = gtv ? accG : accM; GT i = gtv ? (l.n("how") == 2 ? pow(*C, it->second.second, [] { Sc e = ref::Rr; ref::subto(e, Sc{1}); return e; }(), 0) : inv(*C, it->second.second, l.n("how") & 1)) : inv(*C, it->second.second, 1);
            acc = mul(*C, acc, i); bool g2v = gtv; const Host& h = hostAt(hst[l.n("s") % 6]); GT g = compute(h, parts[p], l.n("replace") ? (int)(l.n("s") % 6) : parts[p].how, l.n("s"), g2v); g = ship(h, *C, g, l.n("s") % 10); GT& acc2 = g2v ? accG : accM; acc2 = mul(*C, acc2, g); R.add("fault_withdrawn_and_replaced"); }); }
    S.run(R);
    if(have.size() != parts.size()) R.fail("harness", "parts missing");
    GT f = mul(*C, fe(*C, accM), accG); judge(*C, f, total, fmt("pairing product of %zu pairs in %zu parts", all.size(), parts.size()));
    // and in one place
    bool weighted = false; for(auto& q : parts) weighted |= q.second.weight != 0; if(!weighted) { AB a; Rng r(7); for(auto& v : items) for(auto& it : v.second) a.P(rerep(r, it.a)).Q(rerep(r, it.b)); judge(*C, gt(run(*C, "pairing", a)), total, "whole product"); }
}
void W::sum() {
    bool one = w.n("group") == 1; str g = one ? "g1" : "g2"; std::map<int,Part> parts; std::map<int,vec<Item>> items; vec<Item> all; G1 t1; G2 t2; Sc total{}; vec<int> hst; for(int i = 0; i < 8; i++) hst.push_back(wr.next() % hosts.size());
    for(auto& s : plan) { Ln l(s); if(l.verb == "part") { Part q{(int)l.n("p"), (int)(l.n("w") % nw), (int)l.n("how"), (int)l.n("enc"), (int)l.n("start"), (int)l.n("work", 1), 0, l.n("s")}; parts[q.p] = q; } }
    if(parts.empty()) return; auto partOf = [&](int k) -> int { return parts.count(k) ? k : parts.begin()->first; };
    for(auto& s : plan) { Ln l(s); if(l.verb != "item") continue; Rng r(l.n("s"), 5); str what = l.s("what"); int x = r.below(r.p(.4) ? 4 : Pool::N); Item it{P.p1[x], P.p2[x], P.k[x]}; it.c = randScalar(r);
        if(what == "identity") { it.a = G1{}; it.b = G2{}; it.k = Sc{}; } else if(!all.empty() && what == "repeat") it = all[r.below(all.size())]; else if(!all.empty() && what == "opposite") { it = all[r.below(all.size())]; it.a = it.a.neg(); it.b = it.b.neg(); it.k = ref::negr(it.k); } else if(what == "same" && !all.empty()) it.c = all.back().c;
        all.push_back(it); items[partOf(l.n("part"))].push_back(it); total = ref::addr(total, ref::mulr(it.k, it.c)); }
    for(auto& s : plan) { Ln l(s); if(l.verb != "close" || total == Sc{}) continue; Sc k = ref::negr(total); items[partOf(l.n("part"))].push_back({ref::gen1().mul(k), ref::gen2().mul(k), k, Sc{1}}); total = Sc{}; R.add("closed"); }
    for(auto& s : plan) { Ln l(s); auto it = parts.find(l.n("p")); if(it == parts.end()) continue; if(l.verb == "lose") it->second.lose = l.n("n"); else if(l.verb == "delay") it->second.delay += l.n("by"); else if(l.verb == "dup") it->second.dups.push_back(l.n("after")); }
    const Host* C = &hostAt(hst[7]); Bytes acc = one ? ref::jacbe(G1{}) : ref::jacbe(G2{}); std::set<int> have, done; vec<int> epoch(nw, 0); std::map<int,Bytes> got; Rng z(w.n("seed"), 9);
    auto push = [&](AB& a, const Bytes& b) { if(one) a.p1.push_back(b); else a.p2.push_back(b); };
    auto compute = [&](const Host& h, const Part& q, int how, u64 sd) { Rng r(sd, 6); vec<Item> v = items[q.p]; for(size_t i = v.size(); i > 1; i--) std::swap(v[i-1], v[r.below(i)]); Bytes o; auto pt = [&](const Item& it) { return one ? ref::jacbe(rerep(r, it.a)) : ref::jacbe(rerep(r, it.b)); };
        R.add("parts_computed"); R.state(mix(how * 64 + v.size()) ^ hstr(h.name) ^ one);
        if(how % 3 == 2 && v.size() < 40) { o = one ? ref::jacbe(G1{}) : ref::jacbe(G2{}); for(auto& it : v) { AB a; push(a, pt(it)); a.S(it.c); Bytes t = run(h, g + "_scale", a).bytes(); AB b; push(b, o); push(b, t); o = run(h, g + "_add", b.I(0)).bytes(); } return o; }
        AB a; for(auto& it : v) { push(a, pt(it)); a.S(it.c); } return run(h, g + "_weightedSum", a).bytes(); };
    auto merge = [&](const Bytes& b, bool sub) { AB a; if(!sub && z.p(.5)) { push(a, b); push(a, acc); } else { push(a, acc); push(a, b); } acc = run(*C, g + (sub ? (z.p(.5) ? "_subtract" : "_subtractAssign") : z.p(.5) ? "_add" : "_addAssign"), a.I(0)).bytes(); };
    auto shipP = [&](const Host& f, const Host& t, const Bytes& b, int enc) { if(enc >= 8) return b; Bytes e = libEnc(f, R, one ? 1 : 2, b, enc % NENC); auto d = libDec(t, R, one ? 1 : 2, e, enc % NENC, true); if(!d) R.fail("part-rejected", t.name + " rejects " + encName(enc)); return *d; };
    auto arrive = [&](int p, const Bytes& b, const Host* f) { if(have.count(p)) { R.add("fault_dup_ignored"); return; } have.insert(p); Bytes x = shipP(*f, *C, b, parts[p].enc); got[p] = x; merge(x, false); R.add("combined"); };
    std::function<void(int,u64,int,int)> assign = [&](int p, u64 t, int wk, int attempt) { S.at(t, [&, p, wk, attempt] { Part& q = parts[p]; if(have.count(p)) return; const Host& h = hostAt(hst[wk % 6]); int ep = epoch[wk % nw]; Bytes b = compute(h, q, q.how + attempt, q.s + attempt * 7); const Host* f = &h;
        if(q.lose > attempt) R.add("fault_loss"); else { u64 arr = S.now + q.work + q.delay; if(q.delay) R.add("fault_delay"); S.at(arr, [&, p, b, f, ep, wk] { if(epoch[wk % nw] != ep) { R.add("fault_lost_in_crash"); return; } arrive(p, b, f); }); for(int d : q.dups) S.at(arr + d, [&, p, b, f] { R.add("fault_dup"); arrive(p, b, f); }); }
        S.at(S.now + 3000, [&, p, wk, attempt] { if(!have.count(p)) { R.add("reassigned"); assign(p, S.now, wk + 1, attempt + 1); } }); }); };
    for(auto& q : parts) assign(q.first, q.second.start, q.second.w, 0);
    for(auto& s : plan) { Ln l(s);
        if(l.verb == "crash") S.at(l.n("at"), [&, l] { epoch[l.n("w") % nw]++; R.add("fault_crash"); });
        else if(l.verb == "restart") S.at(l.n("at"), [&, l] { const Host* o = C; C = &hosts[(C - &hosts[0] + 1 + l.n("enc") % 2) % hosts.size()]; acc = shipP(*o, *C, acc, l.n("enc") % 8); R.add("fault_coordinator_restart"); });
        else if(l.verb == "withdraw") S.at(l.n("at"), [&, l] { int p = l.n("p"); auto it = got.find(p); if(it == got.end() || done.count(p)) return; done.insert(p); merge(it->second, true); const Host& h = hostAt(hst[l.n("s") % 6]); merge(shipP(h, *C, compute(h, parts[p], l.n("s") % 3, l.n("s")), l.n("s") % 10), false); R.add("fault_withdrawn_and_replaced"); }); }
    S.run(R);
    AB a; push(a, acc); str e = one ? refVal(ref::gen1().mul(total)) : refVal(ref::gen2().mul(total)); Res s = run(*C, g + "_toCompressed", a); Bytes c = one ? ref::compressed(ref::gen1().mul(total)) : ref::compressed(ref::gen2().mul(total));
    if(s.bytes() != c) R.fail("split-differs-from-whole", fmt("%s %s sum of %zu terms in %zu parts: ", C->name.c_str(), g.c_str(), all.size(), parts.size()) + hex(s.bytes()).substr(0, 60) + " instead of " + hex(c).substr(0, 60)); R.add("judged");
}
void W::dh() {
    struct Party { const Host* h; Sc k; int how, enc; Bytes pub1, pub2; }; std::map<int,Party> ps; Sc prod{1};
    for(auto& s : plan) { Ln l(s); if(l.verb != "party") continue; Rng r(l.n("s"), 5); Party p; p.h = &hostAt(wr.next()); p.how = l.n("how"); p.enc = l.n("enc");
        switch(l.n("kind")) { case 0: p.k = Sc{r.below(3)}; break; case 1: p.k = ref::Rr; ref::subto(p.k, Sc{r.below(3)}); break; case 2: p.k = Sc{0, 0, 0, 1ull << r.below(63)}; break; case 3: p.k = randScalar(r); break; case 4: p.k = Sc{r.next()}; break; default: p.k = randSk(r); }
        ps[l.n("i")] = p; }
    if(ps.size() < 3) return; for(auto& p : ps) prod = ref::mulr(prod, p.second.k);
    for(auto& q : ps) { Party& p = q.second; Rng r(q.first, 3); AB a; a.S(p.k).P(rerep(r, ref::gen1())).Q(rerep(r, ref::gen2())); p.pub1 = r.p(.5) ? run(*p.h, "public_key", AB(a)).bytes() : run(*p.h, "g1_scale", a).bytes(); p.pub2 = run(*p.h, "g2_scale", a).bytes(); }
    auto key = [&](int i, int how, u64 sd) { Party& p = ps[i]; Party &b = ps[(i + 1) % 3], &c = ps[(i + 2) % 3]; Rng r(sd, 4); if(how & 4) std::swap(b, c);
        Bytes x = libEnc(*b.h, R, 1, b.pub1, b.enc), y = libEnc(*c.h, R, 2, c.pub2, c.enc); auto X = libDec(*p.h, R, 1, x, b.enc, true), Y = libDec(*p.h, R, 2, y, c.enc, true); if(how & 4) std::swap(b, c); if(!X || !Y) R.fail("public-value-rejected", p.h->name); GT g;
        switch(how & 3) { case 0: { AB a; a.p_(*X).S(p.k); Bytes t = run(*p.h, "g1_scale", a).bytes(); AB q; q.p_(t).q_(*Y); g = gt(run(*p.h, "pairing", q)); break; } case 1: { AB a; a.q_(*Y).S(p.k); Bytes t = run(*p.h, "g2_scale", a).bytes(); AB q; q.p_(*X).q_(t); g = gt(run(*p.h, "pairing", q)); break; }
            case 2: { AB q; q.p_(*X).q_(*Y); g = pow(*p.h, gt(run(*p.h, "pairing", q)), p.k, r.below(3)); break; }
            default: { Sc h; Rng z(sd, 8); h = Sc{z.next(), z.next()}; Sc rest = ref::subr(ref::modr(p.k), h); AB q; q.p_(*X).q_(*Y); GT e = gt(run(*p.h, "pairing", q)); g = mul(*p.h, pow(*p.h, e, h, 0), pow(*p.h, e, rest, 0)); } }     // in two halves
        R.state(mix(how) ^ hstr(p.h->name) ^ mix(p.k[3] >> 60)); judge(*p.h, g, prod, fmt("shared key of party %d, way %d", i, how)); };
    for(auto& s : plan) { Ln l(s); if(l.verb == "again") R.add("fault_retry"); if((l.verb == "party" || l.verb == "again") && ps.count(l.n("i"))) key(l.n("i") % 3, l.n("how"), l.n("s")); }
}
void W::thresh() {
    Ln gl(plan[1]); int m = gl.n("m", 2), t = gl.n("t", 1); struct Dealer { vec<Sc> c; vec<G1> com; }; vec<Dealer> ds; Bytes msg = msgOf(gl.n("msg"));
    for(auto& s : plan) { Ln l(s); if(l.verb != "dealer") continue; Rng r(l.n("s"), 5); Dealer d; for(int i = 0; i < t; i++) d.c.push_back(l.n("kind") == 0 ? Sc{1 + r.below(3)} : l.n("kind") == 1 && i ? Sc{} : randSk(r)); ds.push_back(d); }
    if(ds.empty()) return; const Host& H0 = hostAt(wr.next()); Sc secret{}; AB pks;
    for(auto& d : ds) { secret = ref::addr(secret, d.c[0]); for(size_t i = 0; i < d.c.size(); i++) { AB a; a.S(d.c[i]); Res s = run(H0, "public_key", a); d.com.push_back(s.g1()); if(!i) pks.p_(s.bytes()); } }
    Bytes groupKey = run(H0, "aggregate_public_keys", pks).bytes(); G1 gk = ref::gen1().mul(secret); { auto p = ref::fromjac<Fp>(groupKey, false); if(!p || refVal(*p) != refVal(gk)) R.fail("group-key-differs", H0.name); }
    auto power = [&](u64 j) { vec<Sc> v; Sc x{1}; for(int i = 0; i < t; i++) { v.push_back(x); x = ref::mulr(x, Sc{j}); } return v; };
    auto share = [&](const Dealer& d, u64 j) { Sc s{}; auto v = power(j); for(int i = 0; i < t; i++) s = ref::addr(s, ref::mulr(d.c[i], v[i])); return s; };
    struct Signer { const Host* h; Bytes stored; Sc share; bool ok = false; u64 at = 0; int enc = 0; Bytes sig; }; std::map<int,Signer> sg; vec<int> order; std::map<int,int> lostN;
    for(auto& s : plan) { Ln l(s); if(l.verb == "signer") { Signer q; q.h = &hostAt(l.n("host")); q.at = l.n("at"); q.enc = l.n("enc"); sg[l.n("j")] = q; } else if(l.verb == "lost") lostN[l.n("j")]++; }
    for(auto& q : sg) { int j = q.first; Signer& x = q.second; AB agg; Sc sum{}; int di = 0;
        for(auto& d : ds) { Sc sh = share(d, j + 1); Sc rec = sh;
            for(auto& s : plan) { Ln l(s); if(l.verb == "garble" && (int)l.n("j") == j && di == 0) { Rng r(l.n("s"), 5); switch(l.n("how")) { case 0: rec[r.below(3)] ^= 1ull << r.below(64); break; case 1: rec = share(d, j + 2); break; case 2: rec = ref::addr(rec, Sc{1}); break; default: rec = ref::negr(rec); } R.add("fault_corrupt"); } }
            // the receiver checks the share against the dealer's commitments
            AB a; auto v = power(j + 1); Rng r(j, 4); for(int i = 0; i < t; i++) { a.P(rerep(r, d.com[i])); a.S(v[i]); } G1 expc = run(*x.h, "g1_weightedSum", a).g1(); AB b; b.S(rec); Res pk = run(*x.h, "public_key", b); AB e; e.P(expc).p_(pk.bytes()); bool good = run(*x.h, "g1_equal", e).boolean() == 1;
            if(good != (ref::modr(rec) == sh)) R.fail(good ? "wrong-share-accepted" : "share-rejected", fmt("signer %d on %s", j, x.h->name.c_str())); R.add("shares_checked");
            if(!good) { R.add("share_requested_again"); rec = sh; } agg.S(rec); sum = ref::addr(sum, sh); di++; }
        Sc got = run(*x.h, "aggregate_secret_keys", agg).sc(); if(got != sum) R.fail("combined-share-differs", x.h->name); x.share = got; x.stored = run(*x.h, "sk_to_bytes", AB().S(got)).bytes();
        S.at(x.at, [&, j] { Signer& x = sg[j]; for(auto& s : plan) { Ln l(s); if(l.verb == "crash" && (int)l.n("w") == j && l.n("at") <= x.at) { R.add("fault_crash_restart"); x.h = &hosts[(x.h - &hosts[0] + 1) % hosts.size()]; Sc k = run(*x.h, "sk_from_bytes", AB().M(x.stored).I(0)).sc(); if(k != x.share) R.fail("share-lost", x.h->name); x.share = k; } }
            if(lostN[j]) { R.add("fault_loss"); return; }
            Bytes s = run(*x.h, "sign", AB().S(x.share).M(msg)).bytes(); Bytes wire = libEnc(*x.h, R, 2, s, x.enc); auto d = libDec(H0, R, 2, wire, x.enc, true); if(!d) R.fail("part-rejected", "signature share"); x.sig = *d; x.ok = true; order.push_back(j); R.add("shares_signed"); }); }
    S.run(R);
    const G2& h = hashOf(msg, ref::SIG_DST); str whole = refVal(h.mul(secret));
    for(auto& s : plan) { Ln l(s); if(l.verb != "combine") continue; Rng r(l.n("s"), 6); const Host& C = hostAt(l.n("host")); vec<int> av = order; for(size_t i = av.size(); i > 1; i--) std::swap(av[i-1], av[r.below(i)]); int how = l.n("how"); bool enough = (int)av.size() >= t; size_t use = enough ? (how == 3 && t > 1 ? t - 1 : r.p(.5) ? t : r.range(t, av.size())) : av.size(); if(!use) continue; av.resize(use);
        AB a; Bytes acc = ref::jacbe(G2{}); Sc chk{};
        for(int j : av) { Sc num{1}, den{1}; for(int i : av) if(i != j) { num = ref::mulr(num, Sc{(u64)i + 1}); den = ref::mulr(den, ref::subr(Sc{(u64)i + 1}, Sc{(u64)j + 1})); } Sc lam = ref::mulr(num, invr(den)); chk = ref::addr(chk, ref::mulr(lam, sg[j].share));
            if(how == 1) { AB b; b.q_(sg[j].sig).S(lam); Bytes x = run(C, "g2_scale", b).bytes(); AB c; c.q_(acc).q_(x); acc = run(C, "g2_add", c.I(0)).bytes(); } else a.q_(sg[j].sig).S(lam); }
        Res res; if(how == 1) { AB c; c.q_(acc).Q(G2{}); res = run(C, "g2_add", c.I(0)); } else res = run(C, "g2_weightedSum", a);
        bool full = chk == secret; R.add("combined"); R.state(mix(m * 64 + t * 8 + use) ^ mix(how) ^ hstr(C.name)); R.add(full ? "complete" : "too_few");
        if(refVal(res.g2()) != refVal(h.mul(chk))) R.fail("split-differs-from-whole", fmt("%s: %zu signature shares of threshold %d combined", C.name.c_str(), use, t)); if(full && refVal(res.g2()) != whole) R.fail("split-differs-from-whole", "whole");
        int v = run(C, "verify", AB().p_(groupKey).M(msg).q_(res.bytes())).boolean(); bool expv = full && !(secret == Sc{}); if(v != (int)expv) R.fail(v ? "too-few-shares-accepted" : "combined-signature-rejected", fmt("%s: %zu shares, threshold %d", C.name.c_str(), use, t)); R.add("judged"); }
}
void exec(const Plan& plan, Report& R) {
    aloneInit(); W x(plan, R); switch(x.w.n("mode")) { case PROD: x.prod(); break; case DH: x.dh(); break; case SUM: x.sum(); break; default: x.thresh(); }
}
Reg reg({"C15", gen, exec, {"asm", "asmnx", "port"}, [] { pool(); opNames(); }});
}
