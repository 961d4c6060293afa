// C09: validators vote, aggregators build certificates from whatever the faulty network delivered, verifiers decide.
#include "net.hpp"
#include <algorithm>
namespace {
struct Cert { bool common = false; bool dup = false; vec<G1> pk; vec<Sc> sk; vec<int> ok; vec<Bytes> msg; G2 sig; int enc = 0; };   // ok: 1 in group with known key, 0 identity, off curve or outside
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 9); Plan p; int nv = r.p(.12) ? r.range(20, thorough ? 60 : 36) : r.range(1, 9), na = r.range(1, 2), nm = r.range(1, 4);
    p.push_back(fmt("!world seed=%llu validators=%d aggregators=%d", (unsigned long long)r.next() % 100000000, nv, na));
    u64 t = 0; int id = 0; bool same = r.p(.5);
    vec<int> ms; for(int i = 0; i < nm; i++) ms.push_back(r.below(Pool::NM)); if(r.p(.2) && nm > 1) { ms[0] = 3; ms[1] = 4; } if(r.p(.2) && nm > 1) { ms[0] = 10; ms[1] = 11; }
    bool spread = !same && r.p(.6);
    for(int v = 0; v < nv; v++) for(int k = r.p(.15) ? 2 : 1; k > 0; k--) {
        t += r.below(500); p.push_back(fmt("vote id=%d t=%llu v=%d m=%d agg=%d delay=%d enc=%d", id, (unsigned long long)t, v, same ? ms[0] : spread ? (v + ms[0]) % Pool::NM : r.pick(ms), (int)r.below(na), (int)r.below(3000), (int)r.below(NENC)));
        static const char* f[] = {"drop", "dup", "delay", "badsig", "equivocate", "torsion", "replay"};
        if(r.p(.15)) p.push_back(fmt("vfault id=%d kind=%s s=%llu", id, f[r.below(7)], (unsigned long long)r.next() % 1000000));
        id++; }
    if(r.p(.2)) p.push_back(fmt("crash t=%llu agg=%d", (unsigned long long)(t / 2 + r.below(2000)), (int)r.below(na)));
    int nc = r.range(2, 5);
    for(int i = 0; i < nc; i++) {
        u64 tc = t / 2 + r.below(t / 2 + 4000);
        p.push_back(fmt("cert id=%d t=%llu agg=%d common=%d m=%d dup=%d limit=%d order=%llu enc=%d", i, (unsigned long long)tc, (int)r.below(na), (int)(same ? r.p(.7) : r.p(.3)), ms[0], (int)r.p(.4), r.p(.3) ? (int)r.range(1, 4) : 99, (unsigned long long)r.next() % 100000, (int)r.below(NENC)));
        static const char* f[] = {"missing", "extra", "swapmsg", "doubled", "reorder", "lessmsg", "moremsg", "lesskey", "idkey", "idkeyappend", "torskey", "offkey", "torssig", "offsig", "wrongmsg", "idsig", "splitkeys", "negpair", "rogue", "neighbour", "neighbour", "replaycert", "negsig", "addvote", "flipmsg", "dupmsg", "torspair", "samekey", "empty", "family", "family"};
        for(int k = r.weighted({3, 7, 2}); k > 0; k--) p.push_back(fmt("cfault id=%d kind=%s s=%llu", i, f[r.below(31)], (unsigned long long)r.next() % 1000000));
    }
    if(r.p(.05)) p.push_back(fmt("bulk common=%d n=%d s=%llu", (int)r.p(.5), r.p(.5) ? r.pick(vec<int>{63, 64, 65, 127, 128, 129, 255, 256, 257}) : (int)r.range(40, thorough ? 700 : 300), (unsigned long long)r.next() % 1000000));
    if(p.back().find("bulk ") == 0 && r.p(.6)) p.back() += fmt(" rep=%d", r.pick(vec<int>{2, 16, 32, 64, 128, 255, 256, 256, 257, 512}));
    return p;
}
void exec(const Plan& plan, Report& R) {
    const Pool& P = pool(); Ln w(plan[0]); int nv = w.n("validators", 1), na = w.n("aggregators", 1); Rng wr(w.n("seed"), 1); Sim S;
    vec<int> key(nv); int base = wr.below(Pool::N); for(int i = 0; i < nv; i++) key[i] = (base + i) % Pool::N;
    struct Vote { int v, m; G2 sig; };
    struct Agg { const Host* h; vec<Vote> got; std::set<std::pair<int,int>> have; }; vec<Agg> A(na); for(auto& a : A) a.h = &hostAt(wr.next());
    u64 vh = wr.next();
    std::map<int,vec<Ln>> vf, cf; for(auto& s : plan) { Ln l(s); if(l.verb == "vfault") vf[l.n("id")].push_back(l); if(l.verb == "cfault") cf[l.n("id")].push_back(l); }
    vec<Vote> history; vec<Cert> certs;
    auto verifyBy = [&](const Host& h, const Cert& c) {
        AB a; Rng r(S.now, 3);
        for(size_t i = 0; i < c.pk.size(); i++) a.P(c.ok[i] >= 0 && c.pk[i].oncurve() ? rerep(r, c.pk[i]) : c.pk[i]);
        a.Q(c.sig.oncurve() ? rerep(r, c.sig) : c.sig);
        int exp; str why; str op;
        std::map<Bytes,Sc> per; for(size_t i = 0; i < c.pk.size() && (c.common || i < c.msg.size()); i++) { Bytes m = c.common ? (c.msg.empty() ? Bytes{} : c.msg[0]) : c.msg[i]; Sc& s = per.emplace(m, Sc{}).first->second; s = ref::addr(s, c.sk[i]); }
        auto sum = [&] { G2 e; for(auto& x : per) e = e + hashOf(x.first, ref::SIG_DST).mul(x.second); return e; };
        if(c.common) {
            op = "pop_fast_aggregate_verify"; a.M(c.msg.empty() ? Bytes{} : c.msg[0]);
            G1 k; bool on = true; for(auto& x : c.pk) { on = on && x.oncurve(); k = k + x; }
            if(c.pk.empty()) { exp = 0; why = "empty"; } else if(!on) { R.add("not_judged"); return; }
            else if(k.inf()) { exp = 0; why = "combined key is the identity"; } else if(!k.subgroup()) { exp = 0; why = "combined key outside group"; }
            else { for(int o : c.ok) if(o != 1) { R.add("not_judged"); return; } exp = c.sig.oncurve() && sum().eq(c.sig); why = exp ? "all signed" : "not the sum"; }
        } else {
            op = "aggregate_verify"; a.I(c.dup); for(auto& m : c.msg) a.M(m);
            std::set<Bytes> u(c.msg.begin(), c.msg.end()); int bad = 0; for(int o : c.ok) bad += o != 1;
            if(c.pk.empty() && c.msg.empty()) { R.add("not_judged"); return; }
            if(c.pk.size() != c.msg.size()) { exp = 0; why = "length mismatch"; } else if(c.dup && u.size() != c.msg.size()) { exp = 0; why = "repeated message"; }
            else if(bad) { exp = 0; why = "identity, off-curve or out-of-group key"; }
            else { exp = c.sig.oncurve() && sum().eq(c.sig); why = exp ? "all signed" : "not the sum"; }
        }
        Res s = call(h, op, a); R.add("lib_calls"); R.add("decisions"); R.see(s.canon()); R.see(S.now);
        if(!s.intact) R.fail("arguments-modified", op);
        if(!s.ok() || s.boolean() < 0) R.fail("no-decision", h.name + " " + op + " " + s.canon());
        R.add(exp ? "expected_accept" : "expected_reject"); R.add("max_signers", 0); R.cnt["max_signers"] = std::max<u64>(R.cnt["max_signers"], c.pk.size());
        R.state(hstr(op + why) ^ mix(c.pk.size() * 1000 + c.msg.size()) ^ mix(c.dup * 2 + exp) ^ mix(per.size() * 77));
        if(s.boolean() != exp) R.fail(exp ? "valid-certificate-rejected" : "invalid-certificate-accepted", fmt("host %s %s keys=%zu msgs=%zu dupcheck=%d: ", h.name.c_str(), op.c_str(), c.pk.size(), c.msg.size(), c.dup) + why);
    };
    for(auto& line : plan) {
        Ln l(line);
        if(l.verb == "crash") S.at(l.n("t"), [&, l] { Agg& a = A[l.n("agg") % na]; R.add("fault_crash_restart"); a.got.clear(); a.have.clear(); });
        else if(l.verb == "vote") S.at(l.n("t"), [&, l] {
            int v = l.n("v") % nv, m = l.n("m") % Pool::NM, enc = l.n("enc"), ag = l.n("agg") % na; const Host& h = hostAt(vh + v); u64 delay = l.n("delay");
            AB a; a.S(P.k[key[v]]).M(P.msg[m]); Res s = call(h, "sign", a); R.add("lib_calls"); R.add("votes");
            if(s.canon() != refVal(P.sig[m][key[v]])) R.fail("wrong-signature", h.name);
            G2 sg = P.sig[m][key[v]]; vec<u64> when{delay}; bool drop = false;
            for(auto& f : vf[l.n("id")]) { str k = f.s("kind"); Rng r(f.n("s"), 2); R.add("fault_" + k); if(k == "drop") drop = true; else if(k == "dup") when.push_back(delay + r.below(4000)); else if(k == "delay") when[0] += r.below(20000); else if(k == "badsig") sg = P.sig[m][r.below(Pool::N)]; else if(k == "equivocate") sg = P.sig[r.below(Pool::NM)][key[v]]; else if(k == "torsion") sg = sg + r.pick(P.tors2); else if(k == "replay" && !history.empty()) sg = r.pick(history).sig; }
            history.push_back({v, m, sg}); if(drop) return;
            Bytes wire = refEnc(sg, enc);
            for(u64 d : when) S.at(S.now + d, [&, ag, v, m, sg, wire, enc] { Agg& g = A[ag]; if(g.have.count({v, m})) { R.add("duplicate_ignored"); return; } auto x = libDec(*g.h, R, 2, wire, enc, true); if(!x) R.fail("vote-encoding-rejected", encName(enc)); g.have.insert({v, m}); g.got.push_back({v, m, sg}); R.add("votes_delivered"); }); });
        else if(l.verb == "cert") S.at(l.n("t"), [&, l] {
            Agg& g = A[l.n("agg") % na]; Rng r(l.n("order"), 5); Cert c; c.common = l.n("common"); c.dup = l.n("dup"); int m0 = l.n("m") % Pool::NM; size_t lim = l.n("limit", 99);
            vec<Vote> use; for(auto& v : g.got) if((!c.common || v.m == m0) && use.size() < lim) use.push_back(v);
            for(size_t i = use.size(); i > 1; i--) std::swap(use[i-1], use[r.below(i)]);
            AB a; G2 sum; for(auto& v : use) { c.pk.push_back(P.p1[key[v.v]]); c.sk.push_back(P.k[key[v.v]]); c.ok.push_back(1); if(!c.common) c.msg.push_back(P.msg[v.m]); a.Q(rerep(r, v.sig)); sum = sum + v.sig; }
            if(c.common) c.msg = {P.msg[m0]};
            Res s = call(*g.h, "aggregate_signatures", a); R.add("lib_calls"); R.add("certificates"); if(s.canon() != refVal(sum)) R.fail("wrong-aggregate", g.h->name); c.sig = sum;
            u64 near = 0; for(auto& f : cf[l.n("id")]) {
                str k = f.s("kind"); Rng q(f.n("s"), 8); size_t n = c.pk.size(); bool hit = k != "neighbour"; size_t i = n ? q.below(n) : 0;
                auto ins = [&](const G1& p, const Sc& s, int ok, const Bytes& m) { size_t at = q.below(n + 1); c.pk.insert(c.pk.begin() + at, p); c.sk.insert(c.sk.begin() + at, s); c.ok.insert(c.ok.begin() + at, ok); if(!c.common) c.msg.insert(c.msg.begin() + std::min(at, c.msg.size()), m); };
                auto era = [&](size_t at) { c.pk.erase(c.pk.begin() + at); c.sk.erase(c.sk.begin() + at); c.ok.erase(c.ok.begin() + at); };
                auto mm = [&] { return c.common || c.msg.empty() || q.p(.5) ? P.msg[q.below(Pool::NM)] : c.msg[q.below(c.msg.size())]; };
                if(k == "missing" && n) { era(i); if(!c.common && i < c.msg.size()) c.msg.erase(c.msg.begin() + i); }
                else if(k == "extra") { int z = q.below(Pool::N); ins(P.p1[z], P.k[z], 1, mm()); }
                else if(k == "swapmsg" && !c.common && c.msg.size() > 1) std::swap(c.msg[0], c.msg[1 + q.below(c.msg.size() - 1)]);
                else if(k == "doubled" && !use.empty()) { const Vote& v = use[q.below(use.size())]; if(q.p(.5)) c.sig = c.sig + v.sig; else { ins(P.p1[key[v.v]], P.k[key[v.v]], 1, P.msg[v.m]); if(q.p(.5)) c.sig = c.sig + v.sig; } }
                else if(k == "reorder" && n > 1) { size_t j = q.below(n); std::swap(c.pk[i], c.pk[j]); std::swap(c.sk[i], c.sk[j]); std::swap(c.ok[i], c.ok[j]); if(!c.common && i < c.msg.size() && j < c.msg.size()) std::swap(c.msg[i], c.msg[j]); }
                else if(k == "lessmsg" && !c.common && !c.msg.empty()) { if(q.p(.5)) c.msg.pop_back(); else c.msg.erase(c.msg.begin()); }
                else if(k == "moremsg" && !c.common) c.msg.push_back(mm());
                else if(k == "lesskey" && n && !c.common) era(q.p(.5) ? n - 1 : 0);
                else if(k == "idkey" && n) { c.pk[i] = G1{}; c.ok[i] = 0; c.sk[i] = Sc{}; if(q.p(.6) && i < use.size()) { c.sig = c.sig + use[i].sig.neg(); } }
                else if(k == "idkeyappend") ins(G1{}, Sc{}, 0, mm());
                else if(k == "torskey" && n) { c.pk[i] = c.pk[i] + q.pick(P.tors1); c.ok[i] = 0; }
                else if(k == "torspair" && n > 1) { G1 t = q.pick(P.tors1); c.pk[0] = c.pk[0] + t; c.pk[1] = c.pk[1] + t.neg(); c.ok[0] = c.ok[1] = 0; }
                else if(k == "offkey" && n) { c.pk[i] = off1(q, c.pk[i]); c.ok[i] = 0; }
                else if(k == "torssig") c.sig = c.sig.oncurve() ? c.sig + q.pick(P.tors2) : c.sig; else if(k == "offsig") c.sig = off2(q, c.sig);
                else if(k == "wrongmsg" && !c.msg.empty()) c.msg[q.below(c.msg.size())] = P.msg[q.below(Pool::NM)];
                else if(k == "flipmsg" && !c.msg.empty()) { Bytes& b = c.msg[q.below(c.msg.size())]; if(b.empty()) b = {0}; else b[q.below(b.size())] ^= 1 << q.below(8); }
                else if(k == "dupmsg" && c.msg.size() > 1) { size_t x = q.below(c.msg.size()), y = q.below(c.msg.size()); c.msg[x] = c.msg[y]; }
                else if(k == "idsig") c.sig = G2{};
                else if(k == "splitkeys" && n > 1) { int z = q.below(Pool::N); if(c.ok[0] == 1 && c.ok[1] == 1) { c.pk[0] = c.pk[0] + P.p1[z]; c.sk[0] = ref::addr(c.sk[0], P.k[z]); c.pk[1] = c.pk[1] + P.p1[z].neg(); c.sk[1] = ref::addr(c.sk[1], ref::negr(P.k[z])); for(int y : {0, 1}) if(c.pk[y].inf()) c.ok[y] = 0; } }
                else if(k == "negpair") { int z = q.below(Pool::N); Bytes m = mm(); ins(P.p1[z], P.k[z], 1, m); n++; ins(P.p1[z].neg(), ref::negr(P.k[z]), 1, q.p(.8) ? m : mm()); }
                else if(k == "rogue" && n && c.ok[0] == 1) { int z = q.below(Pool::N); Bytes m = c.msg.empty() ? Bytes{} : c.msg[0]; G1 rk = P.p1[z] + c.pk[0].neg(); if(!rk.inf()) { Sc rs = ref::addr(P.k[z], ref::negr(c.sk[0])); Cert d; d.common = c.common; d.dup = c.dup; d.pk = {c.pk[0], rk}; d.sk = {c.sk[0], rs}; d.ok = {1, 1}; d.msg = c.common ? vec<Bytes>{m} : vec<Bytes>{m, m}; d.sig = hashOf(m, ref::SIG_DST).mul(P.k[z]); c = d; } }
                else if(k == "replaycert" && !certs.empty()) { const Cert& d = q.pick(certs); c.sig = d.sig; if(q.p(.3)) c.msg = d.msg, c.common = d.common; }
                else if(k == "negsig") c.sig = c.sig.neg();
                else if(k == "addvote" && !history.empty()) { if(c.sig.oncurve()) c.sig = c.sig + q.pick(history).sig; }
                else if(k == "samekey" && n > 1) { size_t j = q.below(n); c.pk[i] = c.pk[j]; c.sk[i] = c.sk[j]; c.ok[i] = c.ok[j]; if(q.p(.5) && use.size() == n && !c.common && i < c.msg.size()) { /* the certificate then claims one validator signed twice */ } }
                else if(k == "empty") { c.pk.clear(); c.sk.clear(); c.ok.clear(); if(!c.common && q.p(.5)) c.msg.clear(); if(q.p(.5)) c.sig = G2{}; }
                else if(k == "family") {   // many almost identical messages (same length, one byte apart; prefixes of each other), each once or some repeated, properly signed or with one signature for a relative
                    Cert d; d.dup = q.p(.75); vec<Bytes> fam; Bytes b = q.bytes(q.p(.4) ? q.range(1, 9) : q.p(.5) ? q.range(24, 72) : q.range(100, 260)); int nf = q.range(2, 5);
                    for(int x = 0; x < nf; x++) { Bytes m = b; if(x) switch(q.below(13)) { case 0: m.back() ^= 1 << q.below(8); break; case 1: m[0] ^= 1 << q.below(8); break; case 2: m.push_back(0); break; case 3: m.pop_back(); break; case 4: std::swap(m[q.below(m.size())], m[q.below(m.size())]); break;
                        // what sums, weighted sums, exclusive ors, word sums and hashes of a prefix, suffix or sample do not tell apart
                        case 5: { size_t u = q.below(m.size()), v = q.below(m.size()); if(m[u] < 255 && m[v] > 0) m[u]++, m[v]--; break; }
                        case 6: if(m.size() >= 3) { size_t u = q.below(m.size() - 2); for(int z = 0; z < 3; z++) m[u + z] = std::clamp<int>(m[u + z], 2, 253); fam[0] = m; m[u]++; m[u + 1] -= 2; m[u + 2]++; } break;
                        case 7: { uint8_t z = 1 + q.below(255); m[q.below(m.size())] ^= z; m[q.below(m.size())] ^= z; break; }
                        case 8: std::rotate(m.begin(), m.begin() + q.below(m.size()), m.end()); break;
                        case 9: std::reverse(m.begin(), m.end()); break;
                        case 10: if(m.size() >= 16) { size_t u = q.below(m.size() / 8), v = q.below(m.size() / 8); std::swap_ranges(m.begin() + 8 * u, m.begin() + 8 * u + 8, m.begin() + 8 * v); } break;
                        default: m[q.below(m.size())] ^= 1 << q.below(8); } if(std::find(fam.begin(), fam.end(), m) == fam.end()) fam.push_back(m); }
                    bool once = q.p(.35); size_t ne = once ? fam.size() : q.range(2, 9); int lie = q.p(.2) ? q.below(ne) : -1; vec<size_t> ord; for(size_t x = 0; x < ne; x++) ord.push_back(once ? x : q.below(fam.size())); for(size_t x = ne; x > 1; x--) std::swap(ord[x - 1], ord[q.below(x)]);
                    std::map<size_t,Sc> per; for(size_t x = 0; x < ne; x++) { int z = q.p(.1) ? 0 : q.below(Pool::N); d.pk.push_back(P.p1[z]); d.sk.push_back(P.k[z]); d.ok.push_back(1); d.msg.push_back(fam[ord[x]]); size_t y = (int)x == lie ? q.below(fam.size()) : ord[x]; Sc& s = per.emplace(y, Sc{}).first->second; s = ref::addr(s, P.k[z]); }
                    for(auto& x : per) d.sig = d.sig + hashOf(fam[x.first], ref::SIG_DST).mul(x.second); c = d; }
                else if(k == "neighbour") near = f.n("s") + 1;
                else hit = false;
                if(hit) R.add("fault_cert_" + k);
            }
            certs.push_back(c);
            if(near && c.pk.size() && c.sig.oncurve() && std::count(c.ok.begin(), c.ok.end(), 1) == (int)c.ok.size() && (c.common || c.pk.size() == c.msg.size())) {
                // the same verifier sees in turn committees which differ in one member: each has to be judged by its own keys
                Rng q(near, 11); size_t n = c.pk.size(), i = n > 2 && q.p(.5) ? 1 + q.below(n - 2) : q.below(n); int z = q.below(Pool::N); Cert d = c; d.pk[i] = P.p1[z]; d.sk[i] = P.k[z];
                if(q.p(.75)) { d.sig = G2{}; for(size_t x = 0; x < n; x++) d.sig = d.sig + hashOf(d.common ? d.msg[0] : d.msg[x], ref::SIG_DST).mul(d.sk[x]); } R.add("fault_cert_neighbour");
                const Host& h = hostAt(q.next()); S.at(S.now + q.below(4000), [&, c, d, &h = h] { verifyBy(h, c); verifyBy(h, d); verifyBy(h, c); }); }
            int nvf = 1 + r.below(2); for(int i = 0; i < nvf; i++) { const Host& h = hostAt(r.next()); u64 d = r.below(4000); S.at(S.now + d, [&, c, &h = h] { verifyBy(h, c); }); } });
    }
    S.run(R);
    for(auto& line : plan) { Ln l(line); if(l.verb != "bulk") continue;      // long lists; keys and messages come again and again
        Rng q(l.n("s"), 12); Cert c; c.common = l.n("common"); size_t n = std::min<u64>(l.n("n"), 4000) * (c.common ? 3 : 1); if(!n) continue; int m0 = q.below(Pool::NM); if(c.common) c.msg = {P.msg[m0]};
        std::map<int,Sc> per; for(size_t i = 0; i < n; i++) { int z = q.below(Pool::N), m = c.common ? m0 : q.below(Pool::NM); c.pk.push_back(P.p1[z]); c.sk.push_back(P.k[z]); c.ok.push_back(1); if(!c.common) c.msg.push_back(P.msg[m]); Sc& s = per.emplace(m, Sc{}).first->second; s = ref::addr(s, P.k[z]); }
        for(auto& x : per) c.sig = c.sig + P.H[x.first].mul(x.second); R.add("bulk_certificates");
        if(l.n("rep") && !c.common) {    // a round number of repetitions among messages that are otherwise different, asked to look for them
            Cert e; e.dup = true; size_t dm = 1 + q.below(Pool::NM), f = q.below(2), m = dm + l.n("rep"); Sc per2[Pool::NM] = {}; for(size_t j = 0; j < m; j++) { int z = q.below(Pool::N); size_t x = j < dm ? j : f ? 0 : q.below(dm); e.pk.push_back(P.p1[z]); e.sk.push_back(P.k[z]); e.ok.push_back(1); e.msg.push_back(P.msg[x]); per2[x] = ref::addr(per2[x], P.k[z]); }
            for(size_t x = 0; x < dm; x++) e.sig = e.sig + P.H[x].mul(per2[x]); R.add("round_number_of_repeats"); verifyBy(hostAt(q.next()), e); if(q.p(.3)) { e.dup = false; verifyBy(hostAt(q.next()), e); } }
        size_t i = q.p(.3) ? n - 1 : q.p(.3) ? 0 : q.below(n); int z = q.below(Pool::N); int alt = q.below(6); Cert d = c;
        switch(alt) { case 0: d.pk[i] = P.p1[z]; d.sk[i] = P.k[z]; break; case 1: if(!d.common) d.msg[i] = P.msg[q.below(Pool::NM)]; break; case 2: d.pk.erase(d.pk.begin() + i); d.sk.erase(d.sk.begin() + i); d.ok.erase(d.ok.begin() + i); if(!d.common) d.msg.erase(d.msg.begin() + i); break; case 3: d.pk[i] = G1{}; d.sk[i] = Sc{}; d.ok[i] = 0; break; case 4: d.pk[i] = d.pk[i] + q.pick(P.tors1); d.ok[i] = 0; break; default: d.sig = d.sig + P.sig[m0][z]; }
        verifyBy(hostAt(q.next()), c); verifyBy(hostAt(q.next()), d); }
    // after the last fault: everyone's fresh votes form a certificate that is accepted, in both forms
    Cert c; for(int v = 0; v < nv; v++) { c.pk.push_back(P.p1[key[v]]); c.sk.push_back(P.k[key[v]]); c.ok.push_back(1); c.sig = c.sig + P.sig[5][key[v]]; } c.common = true; c.msg = {P.msg[5]}; verifyBy(hostAt(wr.next()), c);
    Cert e; for(int v = 0; v < nv && v < 6; v++) { e.pk.push_back(P.p1[key[v]]); e.sk.push_back(P.k[key[v]]); e.ok.push_back(1); e.msg.push_back(P.msg[v]); e.sig = e.sig + P.sig[v][key[v]]; } e.dup = true; verifyBy(hostAt(wr.next()), e);
}
Reg reg({"C09", gen, exec, {"asm", "asmnx", "port"}, [] { pool(); }});
}
