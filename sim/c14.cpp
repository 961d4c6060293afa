// C14: vaults (secret keys), watchers (public keys in either group) and their derivations, crashes and restarts.
#include "net.hpp"
namespace {
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 14); Plan p; int nv = r.range(1, 3), nw = r.range(1, 3), n = r.range(6, thorough ? 60 : 25);
    p.push_back(fmt("!world seed=%llu vaults=%d watchers=%d seedlen=%d", (unsigned long long)r.next() % 100000000, nv, nw, r.p(.15) ? (int)r.below(32) : r.p(.5) ? 32 : (int)r.range(32, 200)));
    u64 t = 0; auto idx = [&]() -> u64 { switch(r.below(5)) { case 0: return r.below(4); case 1: return 0x80000000u + r.below(3); case 2: return 0xffffffffu - r.below(2); case 3: return 1u << r.below(32); default: return r.next() & 0xffffffff; } };
    u64 hot = idx();
    for(int i = 0; i < n; i++) {
        t += r.below(1000);
        switch(r.weighted({5, 6, 5, 3, 2, 2, 2, 2, 2, 2})) {
            case 0: p.push_back(fmt("hard t=%llu vault=%d pick=%d idx=%llu", (unsigned long long)t, (int)r.below(nv), (int)r.below(1000), (unsigned long long)(r.p(.3) ? hot : idx()))); break;
            case 1: p.push_back(fmt("soft t=%llu vault=%d pick=%d idx=%llu", (unsigned long long)t, (int)r.below(nv), (int)r.below(1000), (unsigned long long)(r.p(.3) ? hot : idx()))); break;
            case 2: p.push_back(fmt("watch t=%llu w=%d pick=%d idx=%llu", (unsigned long long)t, (int)r.below(nw), (int)r.below(1000), (unsigned long long)(r.p(.3) ? hot : idx()))); break;
            case 3: p.push_back(fmt("publish id=%d t=%llu vault=%d w=%d pick=%d enc=%d delay=%d", i, (unsigned long long)t, (int)r.below(nv), (int)r.below(nw), (int)r.below(1000), (int)r.below(NENC), (int)r.below(5000))); if(r.p(.3)) p.push_back(fmt("fault id=%d kind=%s", i, r.p(.4) ? "dup" : r.p(.5) ? "drop" : "delay")); break;
            case 4: p.push_back(fmt("crash t=%llu vault=%d", (unsigned long long)t, (int)r.below(nv))); break;
            case 5: p.push_back(fmt("wcrash t=%llu w=%d", (unsigned long long)t, (int)r.below(nw))); break;
            case 7: p.push_back(fmt("twin t=%llu vault=%d pick=%d idx=%llu bit=%d soft=%d", (unsigned long long)t, (int)r.below(nv), (int)r.below(1000), (unsigned long long)(r.p(.3) ? hot : idx()), r.p(.3) ? (int)r.below(4) * 64 + (int)r.below(8) : (int)r.below(256), (int)r.below(2)));
                if(r.p(.5)) { uint32_t a = r.p(.6) ? (uint32_t)r.below(20) : idx(), b = a ^ 1u << (r.p(.6) ? r.below(10) : r.below(32)); p.back() += fmt(" i=%u j=%u", a, b); } break;
            case 8: { auto len = [&]() -> int { switch(r.below(4)) { case 0: return r.below(5); case 1: return r.pick(vec<int>{31, 32, 33, 48, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129}); case 2: return r.below(130); default: return r.below(600); } }; int L = r.p(.3) ? r.pick(vec<int>{1, 31, 32, 33, 48, 64, 8159, 8160}) : r.range(1, 300);
                p.push_back(fmt("kdf t=%llu vault=%d s=%llu salt=%d ikm=%d info=%d len=%d", (unsigned long long)t, (int)r.below(nv), (unsigned long long)r.next() % 1000000, len(), len(), len(), L)); break; }
            case 9: p.push_back(fmt("guest t=%llu vault=%d s=%llu len=%d at=%d bit=%d", (unsigned long long)t, (int)r.below(nv), (unsigned long long)r.next() % 1000000, r.p(.5) ? (int)r.range(32, 70) : (int)r.range(32, 400), (int)r.below(400), (int)r.below(8))); break;
            default: p.push_back(fmt("lamport t=%llu vault=%d pick=%d idx=%llu", (unsigned long long)t, (int)r.below(nv), (int)r.below(1000), (unsigned long long)idx())); break;
        }
    }
    return p;
}
str refStY(const Bytes& b) { return refB(0) + refY(b); }
struct Step { bool hard; uint32_t i; };
typedef vec<Step> Path;
str pstr(const Path& p) { str s = "m"; for(auto& x : p) s += fmt("/%u%s", x.i, x.hard ? "h" : ""); return s; }
void exec(const Plan& plan, Report& R) {
    Ln w(plan[0]); Rng wr(w.n("seed"), 1); int nv = w.n("vaults", 1), nw = w.n("watchers", 1); Bytes seed = wr.bytes(w.n("seedlen", 32)); Sim S;
    if(wr.p(.05)) std::fill(seed.begin(), seed.end(), 0);
    struct Ent { Path p; Sc sk; }; struct Vault { const Host* h; vec<Ent> keys; vec<Ent> disk; }; struct WEnt { Path p; G1 pk; G2 pk2; }; struct Watch { const Host* h; vec<WEnt> keys; vec<std::pair<Path,Bytes>> disk; vec<Bytes> disk2; };
    vec<Vault> V(nv); vec<Watch> W(nw); std::map<str,Sc> truth;   // reference keys by path
    auto run = [&](const Host& h, const str& op, const AB& a) { BlsHooks hk{}; hk.guard = guardAlloc; Res s = call(h, op, a, &hk); R.add("lib_calls"); R.add("derivations"); R.see(s.canon()); if(!s.ok() || s.v().empty()) R.fail("derivation-failed", h.name + " " + op + " " + s.canon()); if(!s.intact) R.fail("arguments-modified", op); return s; };
    auto want = [&](const Host& h, const str& what, const Path& p, const str& got, const str& exp) { R.state(hstr(what) ^ mix(p.size() * 4 + (p.empty() ? 0 : p.back().hard)) ^ (p.empty() ? 0 : mix(p.back().i))); if(got != exp) R.fail("wrong-key", fmt("host %s %s at %s: got %s expected %s", h.name.c_str(), what.c_str(), pstr(p).c_str(), got.substr(0, 70).c_str(), exp.substr(0, 70).c_str())); };
    Sc master = ref::keygen(seed); truth["m"] = master;
    auto boot = [&](Vault& v) { AB a; a.M(seed); Res s = run(*v.h, "secret_key", a); want(*v.h, "secret_key", {}, s.canon(), refVal(master)); v.keys = {{{}, s.sc()}}; };
    for(auto& v : V) { v.h = &hostAt(wr.next()); boot(v); }
    for(auto& x : W) x.h = &hostAt(wr.next());
    auto refSoft = [&](const Sc& sk, uint32_t i) { return ref::addr(ref::modr(sk), ref::tweak(ref::compressed(ref::gen1().mul(sk)), i)); };
    std::map<int,vec<str>> faults; for(auto& l : plan) { Ln x(l); if(x.verb == "fault") faults[x.n("id")].push_back(x.s("kind")); }
    for(auto& line : plan) {
        Ln l(line);
        if(l.verb == "hard" || l.verb == "soft") S.at(l.n("t"), [&, l] {
            Vault& v = V[l.n("vault") % nv]; Ent e = v.keys[l.n("pick") % v.keys.size()]; uint32_t i = l.n("idx"); bool hard = l.verb == "hard"; if(e.p.size() > 5) return; if(e.sk == Sc{}) return;
            AB a; a.S(e.sk).I(i); Res s = run(*v.h, hard ? "derive_child_sk" : "derive_child_sk_unhardened", a); Path p = e.p; p.push_back({hard, i});
            auto t = truth.find(pstr(p)); if(t == truth.end()) t = truth.emplace(pstr(p), hard ? ref::child_hard(e.sk, i) : refSoft(e.sk, i)).first;
            want(*v.h, l.verb, p, s.canon(), refVal(t->second)); v.keys.push_back({p, s.sc()}); if(l.n("pick") % 3 == 0) v.disk.push_back(v.keys.back()); });
        else if(l.verb == "lamport") S.at(l.n("t"), [&, l] { Vault& v = V[l.n("vault") % nv]; Ent e = v.keys[l.n("pick") % v.keys.size()]; uint32_t i = l.n("idx"); AB a; a.S(e.sk).I(i); Res s = run(*v.h, "parent_sk_to_lamport_pk", a); want(*v.h, "parent_sk_to_lamport_pk", e.p, s.canon(), refY(ref::lamport_pk(e.sk, i)));
            AB b; b.M(ref::be32(e.sk)).M(ref::be4(i)); s = run(*v.h, "ikm_to_lamport_sk", b); want(*v.h, "ikm_to_lamport_sk", e.p, s.canon(), refY(ref::lamport_sk(ref::be32(e.sk), ref::be4(i)))); });
        else if(l.verb == "twin") S.at(l.n("t"), [&, l] {     // an imported key almost equal to one of its own, children of the two taken in turn
            Vault& v = V[l.n("vault") % nv]; Ent e = v.keys[l.n("pick") % v.keys.size()]; if(e.sk == Sc{}) return; uint32_t i = l.n("idx"); Bytes b = ref::be32(e.sk); int bit = l.n("bit"); b[31 - bit / 8 % 32] ^= 1 << bit % 8; Sc tw = ref::modr(b); if(tw == Sc{} || tw == e.sk) return; R.add("fault_almost_equal_key");
            bool soft = l.n("soft"), sib = l.has("j"); if(sib) R.add("sibling_pairs");
            for(int k = 0; k < 4; k++) { const Sc& sk = k % 2 && !sib ? tw : e.sk; uint32_t j = sib ? (uint32_t)l.n(k % 2 ? "j" : "i") : k == 3 ? i ^ 1 : i; AB a; a.S(sk).I(j); Res s = run(*v.h, soft ? "derive_child_sk_unhardened" : "derive_child_sk", a); Path p = e.p; p.push_back({!soft, j}); static std::map<str,str> memo; str key = refVal(sk) + fmt("/%u/%d", j, soft); auto m = memo.find(key); if(m == memo.end()) m = memo.emplace(key, refVal(soft ? refSoft(sk, j) : ref::child_hard(sk, j))).first; want(*v.h, sib ? "sibling" : k % 2 ? "twin" : "original", p, s.canon(), m->second); } });
        else if(l.verb == "kdf") S.at(l.n("t"), [&, l] {      // the standard's building block on its own, lengths around the block boundaries
            Vault& v = V[l.n("vault") % nv]; Rng r(l.n("s"), 5); Bytes ikm = r.bytes(l.n("ikm")), salt = r.bytes(l.n("salt")), info = r.bytes(l.n("info")); size_t L = l.n("len"); if(L < 1 || L > 8160) return;
            AB a; a.M(ikm).M(salt); Res s = run(*v.h, "hkdf256_hmac", a); str h0 = s.canon(); want(*v.h, "hmac", {}, h0, refStY(ref::hmac(salt, ikm)));
            AB b; b.M(ikm).M(salt).M(info).I(L); s = run(*v.h, "hkdf256_extract_expand", b); want(*v.h, "hkdf", {}, s.canon(), refStY(ref::expand(ref::hmac(salt, ikm), info, L)));
            if(ikm.size()) { AB c; ikm[r.below(ikm.size())] ^= 1 << r.below(8); c.M(ikm).M(salt); s = run(*v.h, "hkdf256_hmac", c); want(*v.h, "hmac", {}, s.canon(), refStY(ref::hmac(salt, ikm))); } });
        else if(l.verb == "guest") S.at(l.n("t"), [&, l] {    // other people's seeds: the same but for one bit
            Vault& v = V[l.n("vault") % nv]; Rng r(l.n("s"), 6); Bytes sd = r.bytes(std::max<u64>(32, l.n("len"))); for(int k = 0; k < 3; k++) { if(k == 1) sd[l.n("at") % sd.size()] ^= 1 << (l.n("bit") & 7); if(k == 2) sd.pop_back(); if(sd.size() < 32) break; AB a; a.M(sd); Res s = run(*v.h, "secret_key", a); want(*v.h, "secret_key of a guest", {}, s.canon(), refVal(ref::keygen(sd))); } });
        else if(l.verb == "publish") S.at(l.n("t"), [&, l] {
            Vault& v = V[l.n("vault") % nv]; Ent e = v.keys[l.n("pick") % v.keys.size()]; int enc = l.n("enc"), wi = l.n("w") % nw; AB a; a.S(e.sk); Res s = run(*v.h, "public_key", a); want(*v.h, "public_key", e.p, s.canon(), refVal(ref::gen1().mul(e.sk)));
            Bytes b = libEnc(*v.h, R, 1, s.bytes(), enc); AB c; c.Q(ref::gen2()).S(e.sk); Res s2 = run(*v.h, "g2_scale", c); want(*v.h, "g2 public key", e.p, s2.canon(), refVal(ref::gen2().mul(e.sk))); Bytes b2 = libEnc(*v.h, R, 2, s2.bytes(), enc);
            vec<u64> when{l.n("delay")}; bool drop = false; for(auto& f : faults[l.n("id")]) { R.add("fault_" + f); if(f == "drop") drop = true; else if(f == "dup") when.push_back(l.n("delay") * 2 + 1); else when[0] += 20000; }
            if(drop) return;
            for(u64 d : when) S.at(S.now + d, [&, wi, e, b, b2, enc] { Watch& x = W[wi]; auto p = libDec(*x.h, R, 1, b, enc, true); auto q = libDec(*x.h, R, 2, b2, enc, true); if(!p || !q) R.fail("published-key-rejected", encName(enc)); WEnt n; n.p = e.p; n.pk = *ref::fromjac<Fp>(*p, false); n.pk2 = *ref::fromjac<Fp2>(*q, false); x.keys.push_back(n); x.disk.push_back({e.p, libEnc(*x.h, R, 1, *p, COMP)}); x.disk2.push_back(libEnc(*x.h, R, 2, *q, COMP)); R.add("published"); }); });
        else if(l.verb == "watch") S.at(l.n("t"), [&, l] {
            Watch& x = W[l.n("w") % nw]; if(x.keys.empty()) { R.add("nothing_to_watch"); return; } WEnt e = x.keys[l.n("pick") % x.keys.size()]; uint32_t i = l.n("idx"); if(e.p.size() > 6) return; Rng r(i + l.n("t"), 3);
            WEnt n; n.p = e.p; n.p.push_back({false, i});
            AB a; a.P(rerep(r, e.pk)).I(i); Res s = run(*x.h, "derive_child_g1_unhardened", a); n.pk = e.pk + ref::gen1().mul(ref::tweak(ref::compressed(e.pk), i)); want(*x.h, "derive_child_g1_unhardened", n.p, s.canon(), refVal(n.pk));
            // the same step taken by a holder of the secret key
            auto t = truth.find(pstr(e.p)); if(t != truth.end()) { const Host& h = hostAt(i + l.n("t")); AB b; b.S(t->second).I(i); Res k = run(h, "derive_child_sk_unhardened", b); AB c; c.S(k.sc()); Res pk = run(h, "public_key", c); want(h, "secret side against public side", n.p, pk.canon(), s.canon()); truth.emplace(pstr(n.p), k.sc()); }
            AB b; b.Q(rerep(r, e.pk2)).I(i); s = run(*x.h, "derive_child_g2_unhardened", b); n.pk2 = e.pk2 + ref::gen2().mul(ref::tweak(ref::compressed(e.pk2), i)); want(*x.h, "derive_child_g2_unhardened", n.p, s.canon(), refVal(n.pk2));
            n.pk = n.pk.norm(); n.pk2 = n.pk2.norm(); x.keys.push_back(n); });
        else if(l.verb == "crash") S.at(l.n("t"), [&, l] { Vault& v = V[l.n("vault") % nv]; R.add("fault_crash_restart"); boot(v); for(auto& d : v.disk) { AB a; a.S(d.sk); Res s = run(*v.h, "sk_to_bytes", a); AB b; b.M(s.bytes()).I(0); s = run(*v.h, "sk_from_bytes", b); want(*v.h, "stored key", d.p, s.canon(), refVal(d.sk)); v.keys.push_back({d.p, s.sc()}); } });
        else if(l.verb == "wcrash") S.at(l.n("t"), [&, l] { Watch& x = W[l.n("w") % nw]; R.add("fault_crash_restart"); x.keys.clear(); for(size_t i = 0; i < x.disk.size(); i++) { auto p = libDec(*x.h, R, 1, x.disk[i].second, COMP, true); auto q = libDec(*x.h, R, 2, x.disk2[i], COMP, true); if(!p || !q) R.fail("stored-key-rejected", ""); x.keys.push_back({x.disk[i].first, ref::fromjac<Fp>(*p, false)->norm(), ref::fromjac<Fp2>(*q, false)->norm()}); } });
    }
    S.run(R);
}
Reg reg({"C14", gen, exec, {"asm", "asmnx", "port"}, [] { pool(); }});
}
