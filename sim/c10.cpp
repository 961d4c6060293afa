// C10: a replicated log applied by nodes on different code paths (generic assembly, extended assembly, portable code,
// another compiler), over a faulty network, with crashes and restarts on other hardware. Every node must hold the
// same state, bit for bit, after every command.
#include "net.hpp"
namespace {
const char* chains[] = {"fp_add", "fp_sub", "fp_mul", "fp_sqr", "fp_dbl", "fp_neg", "fp_inv", "fp_phi", "fp_sqrt", "fp_exp", "fp2_mul", "fp2_sqr", "fp2_inv", "fp6_mul", "fp12_mul", "fp12_sqr", "g1_add", "g1_addAssign", "g1_dbl", "g1_subtract", "g1_scale", "g1_mapToCurve", "g1_clearCofactor",
  "g2_add", "g2_addAssign", "g2_dbl", "g2_subtract", "g2_scale", "g2_mapToCurve", "g2_clearCofactor", "g2_psi", "public_key", "sign", "derive_child_sk_unhardened", "g1_weightedSum", "g2_weightedSum", "pairing", "verify", "aggregate_secret_keys", "fp_modPrime"};
constexpr int NCH = sizeof(chains)/sizeof(*chains);
bool heavy(const str& o) { return o == "pairing" || o == "sign" || o == "verify"; }
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 10); Plan p; int nn = r.range(2, 4), n = r.range(5, thorough ? 60 : 30); size_t H = 64;
    p.push_back(fmt("!world seed=%llu nodes=%d h0=%d", (unsigned long long)r.next() % 100000000, nn, (int)r.below(64)));
    const vec<str>& ops = opNames(); u64 t = 0; bool bulky = r.p(.5);
    for(int i = 0; i < n; i++) {
        t += r.below(500); str c;
        switch(r.weighted({bulky ? 12 : 2, 5, 5})) {
            case 0: c = fmt("cmd i=%d t=%llu kind=bulk w=%d s=%llu", i, (unsigned long long)t, (int)(r.p(.15) ? 9 : r.p(.5) ? 7 + r.below(2) : r.below(9)), (unsigned long long)r.next() % 1000000000); break;
            case 1: c = fmt("cmd i=%d t=%llu kind=op op=%s s=%llu", i, (unsigned long long)t, ops[r.below(ops.size())].c_str(), (unsigned long long)r.next() % 1000000000); break;
            default: { str o = chains[r.below(NCH)]; if(heavy(o) && r.p(.5)) o = chains[r.below(30)]; c = fmt("cmd i=%d t=%llu kind=chain op=%s s=%llu", i, (unsigned long long)t, o.c_str(), (unsigned long long)r.next() % 1000000000); }
        }
        p.push_back(c);
        for(int q = 0; q < nn; q++) if(r.p(.15)) p.push_back(fmt("fault i=%d node=%d kind=%s", i, q, r.p(.4) ? "drop" : r.p(.5) ? "dup" : "delay"));
        if(r.p(.15)) p.push_back(fmt("ckpt t=%llu node=%d", (unsigned long long)t, (int)r.below(nn)));
        if(r.p(.1)) p.push_back(fmt("crash t=%llu node=%d host=%d down=%d", (unsigned long long)t + 50, (int)r.below(nn), (int)r.below(H), (int)r.below(3000)));
    }
    return p;
}
struct St { Bytes f[12]; Bytes p[3], q[3]; Sc s[2]; u64 dig = 1; u64 hash() const { u64 h = dig; for(auto& x : f) h = fnv(x.data(), x.size(), h); for(auto& x : p) h = fnv(x.data(), x.size(), h); for(auto& x : q) h = fnv(x.data(), x.size(), h); for(auto& x : s) h = fnv(x.data(), 32, h); return h; } };
L6 lim(const Bytes& b) { L6 x; memcpy(x.data(), b.data(), 48); return x; }
Bytes lb(const L6& x) { return Bytes((const uint8_t*)x.data(), (const uint8_t*)x.data() + 48); }
// operands for one raw operation: structured limbs that reach rare carries
L6 wide(Rng& r) { L6 x = randLimbs(r); if(r.p(.3)) { L6 y = x; if(!ref::addto(y, ref::PP)) return y; } return x; }
// a pair whose product reaches rare carries of the word-by-word reduction: the word that receives the carry of reduction
// step i is all ones (or nearly) after the step's own addition, and the word below it overflows
void carryPair(Rng& r, L6& X, L6& Y) {
    int i = r.below(5), yb = i == 4 ? 324 : 306 + r.below(10), L = 64 * (i + 1); L6 x{}, y{};
    for(int k = 0; k <= i; k++) x[k] = r.p(.1) ? 0 : r.next();
    for(int k = 0; k < 6; k++) y[k] = r.next(); y[yb / 64] &= (1ull << yb % 64) - 1; y[yb / 64] |= 1ull << (yb % 64 - 1); for(int k = yb / 64 + 1; k < 6; k++) y[k] = 0;
    typedef std::array<u64,13> W; auto mul = [](const L6& a, const L6& b) { W t{}; for(int q = 0; q < 6; q++) { u64 c = 0; for(int k = 0; k < 6; k++) { unsigned __int128 v = (unsigned __int128)a[q]*b[k] + t[q+k] + c; t[q+k] = v; c = v >> 64; } t[q+6] += c; } return t; };
    W t = mul(x, y), u = t; u64 m = 0; for(int q = 0; q <= i; q++) { m = u[q] * Fp::INV; u64 c = 0; for(int k = 0; k < 6; k++) { unsigned __int128 v = (unsigned __int128)m*ref::PP[k] + u[q+k] + c; u[q+k] = v; c = v >> 64; } for(int k = q + 6; c && k < 13; k++) { u[k] += c; c = u[k] < c; } }
    u64 hi = (unsigned __int128)m * ref::PP[5] >> 64; W want{}; int j = i + 6;
    want[j] = ~hi - r.below(3) + (r.p(.2) ? 1 : 0); want[j-1] = ~0ull - (r.p(.5) ? 0 : r.next() >> r.range(1, 20)); if(j < 11 && L + 64 <= 300 && r.p(.3)) want[j+1] = r.p(.5) ? ~0ull : r.next();
    // xh = (want - t) / (y * 2^L), so that the product's words j and j-1 come out as wanted
    W d = want; { u64 b = 0; for(int k = 0; k < 13; k++) { unsigned __int128 v = (unsigned __int128)d[k] - t[k] - b; d[k] = v; b = v >> 64 & 1; } if(b) { X = x; Y = y; return; } }
    for(int bit = 380 - L; bit >= 0; bit--) { W s{}; int sh = L + bit; for(int k = 0; k < 6; k++) { int q = k + sh / 64; if(q < 13) s[q] |= y[k] << sh % 64; if(sh % 64 && q + 1 < 13) s[q+1] |= y[k] >> (64 - sh % 64); } if(ref::cmp(d, s) >= 0) { ref::subto(d, s); x[(L + bit) / 64] |= 1ull << (L + bit) % 64; } }
    if(ref::cmp(x, ref::PP) >= 0) x[5] &= 0xfffffffffffffffull; X = x; Y = y; if(r.p(.5)) std::swap(X, Y);
}
// a pair whose sum, difference or product is a structured value: next to zero, next to the modulus, few words
L6 edge(Rng& r) { L6 z{}; switch(r.below(4)) { case 0: z[0] = r.below(3); break; case 1: z = randLimbs(r); break; default: { int k = r.below(6); for(int q = 0; q < k; q++) z[q] = r.p(.3) ? ~0ull : r.next(); } } if(r.p(.3)) { L6 y = ref::PP; ref::subto(y, z); z = y; } return ref::cmp(z, ref::PP) >= 0 ? L6{} : z; }
AB bulkArgs(int w, u64 s) {
    Rng r(s, 101); AB a; int n = 128;
    if(w == 9) { for(int i = 0; i < 24; i++) { L6 x = randLimbs(r); a.F(x); } return a; }
    for(int i = 0; i < n; i++) { L6 x = randLimbs(r), y = randLimbs(r); if(w == 7) x = wide(r); if(r.p(.15)) y = x; else if(r.p(.1)) { y = ref::PP; ref::subto(y, x); if(ref::cmp(y, ref::PP) >= 0) y = L6{}; } else if(r.p(.1)) { y = x; y[r.below(6)] += r.below(3) - 1; if(ref::cmp(y, ref::PP) >= 0) y = x; }
        if(w == 7 && r.p(.35)) carryPair(r, x, y);
        else if(r.p(.2)) { L6 e = edge(r); Fp X, Z; X.d = x; Z.d = e; if(w == 0) y = (Z - X).d; else if(w == 4) y = (X - Z).d; else if(w == 7 && ref::cmp(x, ref::PP) < 0 && i % 4 == 0) y = (Z * X.inv()).d; else if(w == 8 && i % 4 == 0) { Fp q; if(Z.sqrt(q) || Z.neg().sqrt(q)) x = q.d; } else if(w == 2) { x = e; if(x[0] & 1) ref::addto(x, ref::PP); x = Fp::shr(x, 1); } else if(w == 6) x = e; }
        if(w == 5) { if(ref::cmp(x, y) < 0) std::swap(x, y); }
        a.F(x).F(y); }
    a.I(w); return a;
}
void exec(const Plan& plan, Report& R) {
    Ln w(plan[0]); u64 ws = w.n("seed"); int nn = w.n("nodes", 2); Sim S;
    struct Node { const Host* h; St st; size_t at = 0; std::set<int> got; St ck; size_t ckAt = 0; bool up = true, onDisk = false; };
    St s0; { Rng r(ws, 11); for(auto& x : s0.f) x = lb(randLimbs(r)); for(auto& x : s0.p) x = ref::jacbe(rerep(r, pool().p1[r.below(Pool::N)])); for(auto& x : s0.q) x = ref::jacbe(rerep(r, pool().p2[r.below(Pool::N)])); for(auto& x : s0.s) x = randSk(r); }
    vec<Node> N(nn); for(int i = 0; i < nn; i++) { N[i].h = &hostAt(w.n("h0") + i); N[i].st = N[i].ck = s0; }
    struct Cmd { Ln l; int i; }; vec<Cmd> log; std::map<std::pair<int,int>,vec<str>> faults; std::map<size_t,std::pair<u64,str>> truth; std::map<size_t,str> texts;
    for(auto& line : plan) { Ln l(line); if(l.verb == "cmd") log.push_back({l, (int)l.n("i")}); else if(l.verb == "fault") faults[{(int)l.n("i"), (int)l.n("node")}].push_back(l.s("kind")); }
    auto run = [&](const Host& h, const str& op, const AB& a) { Res x = call(h, op, a); R.add("lib_calls"); R.add("on_" + h.name); if(!x.intact) R.fail("arguments-modified", op); return x; };
    std::map<str,AB> opCache;
    auto apply = [&](Node& n, const Ln& l) -> str {        // returns a text of what happened, for the report
        St& s = n.st; str kind = l.s("kind"); u64 sd = l.n("s");
        auto fold = [&](const Res& x) { s.dig = mix(s.dig ^ fnv(x.raw.data(), x.raw.size(), x.st + 77)); };
        if(kind == "bulk") { int k = l.n("w"); AB a = bulkArgs(k, sd); Res x = run(*n.h, k == 9 ? "inverse_bulk" : "rawbulk", a); fold(x); if(k == 7) R.add("products"); R.add("raw_operand_pairs", a.f.size() / 2); return fmt("bulk %d: ", k) + hexn(x.raw.data(), x.raw.size()); }
        if(kind == "op") { str k = l.s("op") + std::to_string(sd); auto it = opCache.find(k); if(it == opCache.end()) it = opCache.emplace(k, makeOp(l.s("op"), sd).a).first; Res x = run(*n.h, l.s("op"), it->second); fold(x); return l.s("op") + ": " + fmt("%d ", x.st) + hexn(x.raw.data(), x.raw.size()); }
        str o = l.s("op"); Rng r(sd, 102); AB a; int x = r.below(12), y = r.below(12), z = r.below(12), px = r.below(3), py = r.below(3), pz = r.below(3), sx = r.below(2);
        if(r.p(.15)) y = x; if(r.p(.15)) py = px;
        auto F = [&](int k) { for(int i = 0; i < k; i++) a.F(lim(s.f[(x + i) % 12])); }; auto F2 = [&](int k) { for(int i = 0; i < k; i++) a.F(lim(s.f[(y + i) % 12])); };
        if(o.substr(0, 2) == "g1" || o.substr(0, 2) == "g2") {
            bool two = o[1] == '2'; auto P = [&](int k) { if(two) a.q_(s.q[k]); else a.p_(s.p[k]); };
            if(o.find("mapToCurve") != str::npos) F(two ? 2 : 1); else if(o.find("weightedSum") != str::npos) { for(int i = 0; i < 5; i++) { P((px + i) % 3); a.S(r.p(.5) ? s.s[i % 2] : randScalar(r)); } } else { P(px); P(py); a.S(s.s[sx]); }
        } else if(o == "public_key" || o == "derive_child_sk_unhardened") { a.S(s.s[sx]).I(sd & 0xffffffff); }
        else if(o == "aggregate_secret_keys") { a.S(s.s[0]).S(s.s[1]).S(randSk(r)); }
        else if(o == "sign") { Bytes m(8); memcpy(m.data(), &s.dig, 8); a.S(s.s[sx]).M(m); }
        else if(o == "verify") { Bytes m(8); memcpy(m.data(), &s.dig, 8); a.p_(s.p[px]); a.q_(s.q[py]); a.M(m); }
        else if(o == "pairing") { a.p_(s.p[px]); a.q_(s.q[py]); a.p_(s.p[py]); a.q_(s.q[pz]); }
        else if(o.substr(0, 4) == "fp12") { F(12); F2(12); } else if(o.substr(0, 3) == "fp6") { F(6); F2(6); } else if(o.substr(0, 3) == "fp2") { F(2); F2(2); } else { F(1); F2(1); a.S(s.s[sx]).I(r.below(2)); }
        Res q = run(*n.h, o, a); fold(q); auto v = q.v(); int fi = z;
        for(auto& e : v) {
            if(e.tag == 'L') s.f[fi++ % 12] = e.b;
            else if(e.tag == 'F' && fi < z + 6) { Fp f; if(ref::rdF(e.b.data(), f)) s.f[fi++ % 12] = lb(f.d); }
            else if(e.tag == 'P') s.p[pz] = e.b; else if(e.tag == 'Q') s.q[pz] = e.b; else if(e.tag == 'S') s.s[sx] = ref::frombe32(e.b.data());
        }
        return o + ": " + fmt("%d ", q.st) + hexn(q.raw.data(), q.raw.size()); };
    auto pump = [&](int i) { Node& n = N[i]; if(!n.up) return;
        while(n.at < log.size() && n.got.count(n.at)) {
            str txt = apply(n, log[n.at].l); u64 h = n.st.hash(); auto it = truth.find(n.at);
            R.state(hstr(log[n.at].l.s("op") + log[n.at].l.s("kind") + log[n.at].l.s("w") + n.h->name) ^ mix(log[n.at].l.n("s") % 64));
            if(it == truth.end()) { truth[n.at] = {h, n.h->name}; texts[n.at] = txt; R.see(h); R.add("commands"); }
            else if(it->second.first != h) { const str& o = texts[n.at]; size_t d = 0; while(d < o.size() && d < txt.size() && o[d] == txt[d]) d++; size_t b = d > 20 ? d - 20 : 0; R.fail("replicas-diverge", fmt("command %zu (%s s=%llu): %s and %s differ from position %zu: ..%s vs ..%s", n.at, txt.substr(0, txt.find(':')).c_str(), (unsigned long long)log[n.at].l.n("s"), it->second.second.c_str(), n.h->name.c_str(), d, o.substr(b, 80).c_str(), txt.substr(b, 80).c_str())); }
            n.at++; R.add("applied");
        } };
    for(size_t c = 0; c < log.size(); c++) for(int q = 0; q < nn; q++) {
        vec<u64> when{log[c].l.n("t") + 1 + mix(ws ^ c * 64 ^ q) % 400}; bool drop = false;
        for(auto& f : faults[{log[c].i, q}]) { R.add("fault_" + f); if(f == "drop") drop = true; else if(f == "dup") when.push_back(when[0] + 700); else when[0] += 4000; }
        if(!drop) for(u64 t : when) S.at(t, [&, c, q] { if(!N[q].up) { R.add("fault_lost_while_down"); return; } if(N[q].got.count(c)) R.add("duplicate_ignored"); N[q].got.insert(c); pump(q); });
    }
    for(auto& line : plan) {
        Ln l(line);
        if(l.verb == "ckpt") S.at(l.n("t"), [&, l] { Node& n = N[l.n("node") % nn]; if(!n.up) return; n.ck = n.st; n.ckAt = n.at; R.add("checkpoints");
            for(int i = 0; i < 3; i++) { AB a; a.p_(n.st.p[i]); n.ck.p[i] = run(*n.h, "g1_toJacobianLE", a).bytes(); AB b; b.q_(n.st.q[i]); n.ck.q[i] = run(*n.h, "g2_toJacobianLE", b).bytes(); } n.onDisk = true; });
        else if(l.verb == "crash") S.at(l.n("t"), [&, l] { int i = l.n("node") % nn; Node& n = N[i]; if(!n.up) return; n.up = false; R.add("fault_crash"); const Host* nh = &hostAt(l.n("host"));
            S.at(S.now + l.n("down"), [&, i, nh] { Node& n = N[i]; n.up = true; if(nh != n.h) R.add("fault_restart_on_other_hardware"); n.h = nh; n.st = n.ck; n.at = n.ckAt;
                if(n.onDisk) for(int k = 0; k < 3; k++) { AB a; a.M(n.ck.p[k]).I(0); Res x = run(*nh, "g1_fromJacobianLE", a); AB b; b.M(n.ck.q[k]).I(0); Res y = run(*nh, "g2_fromJacobianLE", b); if(x.none() || y.none()) R.fail("checkpoint-unreadable", nh->name); n.st.p[k] = x.bytes(); n.st.q[k] = y.bytes(); }
                if(n.at && truth.count(n.at - 1) && truth[n.at - 1].first != n.st.hash()) R.fail("checkpoint-changed-state", fmt("%s after %zu commands", nh->name.c_str(), n.at));
                std::set<int> g; for(int c : n.got) if((size_t)c < n.at) g.insert(c); n.got = g; for(size_t c = 0; c < n.at; c++) n.got.insert(c); pump(i); }); });
    }
    S.run(R);
    for(int q = 0; q < nn; q++) { N[q].up = true; for(size_t c = 0; c < log.size(); c++) N[q].got.insert(c); pump(q); if(N[q].at != log.size()) R.fail("stuck", fmt("node %d at %zu of %zu", q, N[q].at, log.size())); }   // faults have stopped: everyone catches up
}
Reg reg({"C10", gen, exec, {"asm", "asmnx", "port", "clang"}, [] { pool(); opNames(); }});
}
