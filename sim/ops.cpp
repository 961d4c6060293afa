// Arguments for every operation of the catalogue, a pure function of (operation, seed).
#include "core.hpp"
#include <unordered_map>
namespace {
typedef std::function<void(Rng&, AB&)> Gen;
struct Spec { Gen g; str cls; };
G1 rp1(Rng& r) { const Pool& p = pool(); switch(r.below(16)) { case 0: return rerep(r, G1{}); case 1: return r.pick(p.tors1); case 2: return p.p1[r.below(4)] + r.pick(p.tors1); default: return rerep(r, p.p1[r.below(r.p(.5) ? 6 : Pool::N)]); } }
u64 frobPower(Rng& r) { return r.p(.75) ? r.below(12) : r.p(.7) ? 12 + r.below(30) : 100 + r.below(100000); }   // the maps have order 12
G2 rp2(Rng& r) { const Pool& p = pool(); switch(r.below(16)) { case 0: return rerep(r, G2{}); case 1: return r.pick(p.tors2); case 2: return p.p2[r.below(4)] + r.pick(p.tors2); default: return rerep(r, p.p2[r.below(r.p(.5) ? 6 : Pool::N)]); } }
G1 gp1(Rng& r) { return rerep(r, pool().p1[r.below(Pool::N)]); }
G2 gp2(Rng& r) { return rerep(r, pool().p2[r.below(Pool::N)]); }
void pair1(Rng& r, AB& a) { G1 p = rp1(r), q; switch(r.below(5)) { case 0: q = rerep(r, p); break; case 1: q = rerep(r, p.neg()); break; case 2: q = p; break; case 3: p = rerep(r, p); q = p.neg(); break; default: q = rp1(r); } a.P(p).P(q).I(r.p(.2)); }
void pair2(Rng& r, AB& a) { G2 p = rp2(r), q; switch(r.below(5)) { case 0: q = rerep(r, p); break; case 1: q = rerep(r, p.neg()); break; case 2: q = p; break; case 3: p = rerep(r, p); q = p.neg(); break; default: q = rp2(r); } a.Q(p).Q(q).I(r.p(.2)); }
void msm(Rng& r, AB& a, bool two, int max) {
    int n = r.below(max + 1), ns = r.p(.15) ? r.below(max + 1) : n;
    G1 l1 = gp1(r); G2 l2 = gp2(r); Sc ls = randScalar(r); int mode = r.below(4);
    for(int i = 0; i < n; i++) { bool rep = mode == 1 || (mode == 2 && r.p(.3)); if(two) { if(!rep) l2 = rp2(r); a.Q(r.p(.2) ? l2.neg() : l2); } else { if(!rep) l1 = rp1(r); a.P(r.p(.2) ? l1.neg() : l1); } }
    for(int i = 0; i < ns; i++) { if(mode != 1 || r.p(.2)) ls = randScalar(r); a.S(ls); }
}
void pairs(Rng& r, AB& a, int max, bool nz) { int n = r.range(nz ? 1 : 0, max); for(int i = 0; i < n; i++) { if(i && r.p(.2)) { a.P(gp1(r)).Q(gp2(r)); } else if(nz && i == 0) a.P(gp1(r)).Q(gp2(r)); else a.P(r.p(.1) ? G1{} : gp1(r)).Q(r.p(.1) ? G2{} : gp2(r)); } }
void flimbs(Rng& r, AB& a, int n) {                               // sometimes an element of a subfield or with a coefficient structure
    int m = n > 1 && r.p(.3) ? 1 + (int)r.below(6) : 0; L6 first = randLimbs(r);
    for(int i = 0; i < n; i++) { L6 x = i ? randLimbs(r) : first; bool z = m == 1 ? i & 1 : m == 2 ? i > 0 : m == 3 ? !(i & 1) : m == 5 ? i >= n / 2 : m == 6 ? i < n / 2 : false; a.F(z ? L6{} : m == 4 ? first : x); } }
Bytes damage(Rng& r, Bytes b) {
    switch(r.below(7)) { case 0: if(b.size()) b[r.below(b.size())] ^= 1 << r.below(8); break; case 1: b = r.bytes(b.size()); break; case 2: for(auto& x : b) x = 0; break; case 3: for(auto& x : b) x = 0xff; break; default: break; }
    return b; }
template<class F> Bytes le(const Bytes& b) { return ref::swapends(b, ref::FS<F>()); }
u64 rawIdx(Rng& r) { switch(r.below(4)) { case 0: return r.below(8); case 1: return 0x80000000u + r.below(4); case 2: return 0xffffffffu - r.below(3); default: return r.next() & 0xffffffff; } }
std::map<str,Spec>& table() {
    static std::map<str,Spec> T;
    if(!T.empty()) return T;
    auto add = [&](const char* names, const char* cls, Gen g) { std::istringstream is(names); str n; while(is >> n) T[n] = {g, str(" ") + cls + " "}; };
    const Pool* P = &pool();
    // signatures: mostly genuine, sometimes not, so that both decisions occur
    add("public_key", "sig mid", [](Rng& r, AB& a) { a.S(r.p(.2) ? randScalar(r) : randSk(r)); });
    add("sign", "sig heavy hash", [](Rng& r, AB& a) { a.S(randSk(r)).M(r.p(.3) ? pool().msg[r.below(3)] : randMsg(r)); });
    add("verify", "sig heavy hash alloc", [P](Rng& r, AB& a) { int m = r.below(3), i = r.below(4), j = r.p(.3) ? r.below(4) : i; G1 k = P->p1[i]; if(r.p(.08)) k = G1{}; else if(r.p(.08)) k = k + r.pick(P->tors1);
        G2 s = P->sig[m][j]; if(r.p(.08)) s = s + r.pick(P->tors2); else if(r.p(.05)) s = G2{}; a.P(rerep(r, k)).M(P->msg[m]).Q(rerep(r, s)); });
    add("aggregate_secret_keys", "sig light", [](Rng& r, AB& a) { int n = r.below(6); for(int i = 0; i < n; i++) a.S(r.p(.8) ? randSk(r) : randScalar(r)); });
    add("aggregate_public_keys aggregate_public_keys_mask aggregate_public_keys_all", "sig light", [](Rng& r, AB& a) { int n = r.below(7); for(int i = 0; i < n; i++) a.P(i && r.p(.2) ? pool().p1[0] : rp1(r)).I(r.p(.5)); });
    add("aggregate_signatures aggregate_signatures_mask aggregate_signatures_all", "sig light", [](Rng& r, AB& a) { int n = r.below(7); for(int i = 0; i < n; i++) a.Q(i && r.p(.2) ? pool().p2[0] : rp2(r)).I(r.p(.5)); });
    add("aggregate_verify", "sig heavy hash alloc", [P](Rng& r, AB& a) {
        int n = r.below(5); G2 s; bool dup = r.p(.3); a.I(r.p(.4));
        for(int i = 0; i < n; i++) { int k = r.below(6), m = dup ? r.below(2) : (i + 1) % 5; G1 p = P->p1[k]; s = s + P->sig[m][k]; a.P(rerep(r, p)).M(P->msg[m]); }
        if(r.p(.15) && n) { a.p1.pop_back(); } else if(r.p(.1) && n) a.m.pop_back(); else if(r.p(.1) && n) a.p1[r.below(n)] = ref::jacbe(G1{}); else if(r.p(.1)) s = s + P->sig[0][0]; else if(r.p(.06)) s = s + r.pick(P->tors2); else if(r.p(.06) && n) a.p1[0] = ref::jacbe(P->p1[0] + r.pick(P->tors1));
        a.Q(rerep(r, s)); });
    add("sk_from_bytes", "sig light", [](Rng& r, AB& a) { a.M(ref::be32(randScalar(r))).I(r.p(.5)); });
    add("sk_to_bytes", "sig light", [](Rng& r, AB& a) { a.S(randScalar(r)); });
    add("pop_prove", "sig heavy hash", [](Rng& r, AB& a) { a.S(randSk(r)); });
    add("pop_verify", "sig heavy hash alloc", [P](Rng& r, AB& a) { int i = r.below(2); static G2 pf[2] = { ref::hash2(ref::popmsg(P->p1[0]), ref::str(ref::POP_DST)).mul(P->k[0]).norm(), ref::hash2(ref::popmsg(P->p1[1]), ref::str(ref::POP_DST)).mul(P->k[1]).norm() };
        G1 k = P->p1[i]; G2 s = pf[r.p(.3) ? 1 - i : i]; if(r.p(.1)) k = G1{}; if(r.p(.1)) s = s + r.pick(P->tors2); if(r.p(.08)) k = k + r.pick(P->tors1); a.P(rerep(r, k)).Q(rerep(r, s)); });
    add("pop_fast_aggregate_verify", "sig heavy hash alloc", [P](Rng& r, AB& a) { int n = r.below(5), m = r.below(3); G2 s; for(int i = 0; i < n; i++) { int k = r.below(6); a.P(rerep(r, P->p1[k])); s = s + P->sig[m][k]; } if(r.p(.25)) s = s + P->sig[m][0]; a.M(P->msg[m]).Q(rerep(r, s)); });
    add("from_message", "sig heavy hash", [](Rng& r, AB& a) { a.M(r.p(.3) ? pool().msg[r.below(3)] : randMsg(r)); switch(r.below(8)) { case 0: a.M(r.bytes(r.below(256))); break; case 1: a.M(r.bytes(r.range(254, 258))); break; case 2: a.M(r.bytes(r.range(256, 600))); break; default: a.M(r.p(.5) ? ref::str(ref::SIG_DST) : ref::str(ref::POP_DST)); } });
    add("secret_key", "sig light alloc", [](Rng& r, AB& a) { a.M(r.p(.2) ? r.bytes(r.below(33)) : r.p(.7) ? r.bytes(32) : r.bytes(r.below(200))); });
    add("derive_child_sk parent_sk_to_lamport_pk", "sig mid alloc", [](Rng& r, AB& a) { a.S(randSk(r)).I(rawIdx(r)); });
    add("derive_child_sk_unhardened", "sig mid", [](Rng& r, AB& a) { a.S(randSk(r)).I(rawIdx(r)); });
    add("derive_child_g1_unhardened", "sig mid", [](Rng& r, AB& a) { a.P(r.p(.1) ? rp1(r) : gp1(r)).I(rawIdx(r)); });
    add("derive_child_g2_unhardened", "sig mid", [](Rng& r, AB& a) { a.Q(r.p(.1) ? rp2(r) : gp2(r)).I(rawIdx(r)); });
    add("ikm_to_lamport_sk", "sig mid alloc", [](Rng& r, AB& a) { a.M(r.bytes(r.p(.7) ? 32 : r.below(100))).M(r.bytes(r.p(.7) ? 4 : r.below(100))); });
    add("hkdf256_hmac hkdf256_extract", "sig light alloc", [](Rng& r, AB& a) { a.M(randMsg(r, 200)).M(r.p(.3) ? r.bytes(r.range(60, 70)) : randMsg(r, 200)); });
    add("hkdf256_expand", "sig light alloc", [](Rng& r, AB& a) { a.M(r.bytes(32)).M(randMsg(r, 100)); switch(r.below(6)) { case 0: a.I(r.below(4)); break; case 1: a.I(255*32 + r.below(4)); break; case 2: a.I(255*32 - r.below(3)); break; case 3: a.I(8161 + r.below(20000)); break; default: a.I(r.below(300)); } });
    add("hkdf256_extract_expand", "sig light alloc", [](Rng& r, AB& a) { a.M(randMsg(r, 100)).M(randMsg(r, 100)).M(randMsg(r, 100)); switch(r.below(5)) { case 0: a.I(r.below(3)); break; case 1: a.I(255*32 + r.below(3)); break; case 2: a.I(8161 + r.below(9000)); break; default: a.I(r.below(300)); } });
    add("xmd_sh256", "sig light", [](Rng& r, AB& a) { a.M(randMsg(r, 200)).M(r.bytes(r.p(.2) ? r.range(250, 300) : r.below(60))); a.I(r.p(.15) ? 8160 + r.below(30) : r.p(.2) ? 32 * r.below(10) : r.below(300)); });
    // groups
    add("g1_add g1_addAssign g1_subtract g1_subtractAssign g1_equal", "g1 light", pair1);
    add("g2_add g2_addAssign g2_subtract g2_subtractAssign g2_equal", "g2 light", pair2);
    add("g1_dbl g1_negate g1_props g1_affine g1_glv g1_toCompressed g1_toAffineBE g1_toAffineLE g1_toJacobianBE g1_toJacobianLE g1_inCorrectSubgroup g1_clearCofactor", "g1 light", [](Rng& r, AB& a) { a.P(rp1(r)); });
    add("g2_dbl g2_negate g2_props g2_affine g2_psi g2_toCompressed g2_toAffineBE g2_toAffineLE g2_toJacobianBE g2_toJacobianLE g2_inCorrectSubgroup g2_clearCofactor", "g2 light", [](Rng& r, AB& a) { a.Q(rp2(r)); });
    add("g2_frobenius", "g2 light", [](Rng& r, AB& a) { a.Q(rp2(r)).I(frobPower(r)); });
    add("g1_scale", "g1 mid", [](Rng& r, AB& a) { a.P(rp1(r)).S(randScalar(r)); });
    add("g2_scale", "g2 mid", [](Rng& r, AB& a) { a.Q(rp2(r)).S(randScalar(r)); });
    add("g1_mapToCurve", "g1 mid", [](Rng& r, AB& a) { flimbs(r, a, 1); });
    add("g2_mapToCurve", "g2 mid", [](Rng& r, AB& a) { flimbs(r, a, 2); });
    add("g1_weightedSum", "g1 mid alloc callback", [](Rng& r, AB& a) { msm(r, a, false, r.p(.3) ? 70 : 12); });
    add("g2_weightedSum", "g2 mid alloc callback", [](Rng& r, AB& a) { msm(r, a, true, r.p(.3) ? 70 : 12); });
    auto dec = [&](const char* n, std::function<Bytes(Rng&)> e) { add(n, "decode light", [e](Rng& r, AB& a) { a.M(damage(r, e(r))).I(r.p(.6)).I(r.p(.1)); }); };
    dec("g1_fromCompressed", [](Rng& r) { return ref::compressed(rp1(r)); });
    dec("g2_fromCompressed", [](Rng& r) { return ref::compressed(rp2(r)); });
    dec("g1_fromAffineBE", [](Rng& r) { return ref::affbe(rp1(r)); }); dec("g1_fromAffineLE", [](Rng& r) { return le<Fp>(ref::affbe(rp1(r))); });
    dec("g2_fromAffineBE", [](Rng& r) { return ref::affbe(rp2(r)); }); dec("g2_fromAffineLE", [](Rng& r) { return le<Fp2>(ref::affbe(rp2(r))); });
    dec("g1_fromJacobianBE", [](Rng& r) { return ref::jacbe(rp1(r)); }); dec("g1_fromJacobianLE", [](Rng& r) { return le<Fp>(ref::jacbe(rp1(r))); });
    dec("g2_fromJacobianBE", [](Rng& r) { return ref::jacbe(rp2(r)); }); dec("g2_fromJacobianLE", [](Rng& r) { return le<Fp2>(ref::jacbe(rp2(r))); });
    auto fb = [](int n, bool lit) { return [n, lit](Rng& r) { Bytes o; for(int i = 0; i < n; i++) { Bytes t(48); randFp(r).be(t.data()); if(lit) t = ref::rev(t.data(), 48); o = ref::cat(o, t); } return o; }; };
    dec("fp_fromBE", fb(1, false)); dec("fp_fromLE", fb(1, true)); dec("fp2_fromBE", fb(2, false)); dec("fp2_fromLE", fb(2, true)); dec("fp6_fromBE", fb(6, false)); dec("fp6_fromLE", fb(6, true)); dec("fp12_fromBE", fb(12, false)); dec("fp12_fromLE", fb(12, true));
    // pairing
    add("pairing", "pairing heavy alloc callback", [](Rng& r, AB& a) { pairs(r, a, r.p(.15) ? 24 : 3, false); });
    add("pairing_raw", "pairing heavy alloc callback", [](Rng& r, AB& a) { pairs(r, a, r.p(.15) ? 24 : 3, false); });
    add("miller_loop", "pairing heavy alloc callback", [](Rng& r, AB& a) { pairs(r, a, r.p(.15) ? 24 : 3, !r.p(.15)); });
    // fields
    add("fp_add fp_sub fp_mul fp_equal", "field light", [](Rng& r, AB& a) { flimbs(r, a, 2); if(r.p(.2)) a.f[1] = a.f[0]; });
    add("fp2_toBytes", "field light", [](Rng& r, AB& a) { flimbs(r, a, 2); a.I(r.below(2)); });
    add("fp6_toBytes", "field light", [](Rng& r, AB& a) { flimbs(r, a, 6); a.I(r.below(2)); });
    add("fp12_toBytes", "field light", [](Rng& r, AB& a) { flimbs(r, a, 12); a.I(r.below(2)); });
    add("fp_sqr fp_dbl fp_neg fp_inv fp_sqrt fp_preds fp_phi fp_toBytes", "field light", [](Rng& r, AB& a) { flimbs(r, a, 1); if(r.p(.1)) a.f[0] = L6{}; });
    add("fp_mont", "field light", [](Rng& r, AB& a) { flimbs(r, a, 1); });
    add("fp_shift", "field light", [](Rng& r, AB& a) { flimbs(r, a, 1); a.I(r.below(2)); });
    add("fp_exp fp2_exp", "field mid", [](Rng& r, AB& a) { flimbs(r, a, 2); a.S(randScalar(r)); });
    add("fp_modPrime", "field light", [](Rng& r, AB& a) { for(int i = 0; i < 2; i++) { L6 x; for(auto& l : x) l = r.p(.2) ? ~0ull : r.p(.2) ? 0 : r.next(); a.F(x); } });
    add("raw", "field light", [](Rng& r, AB& a) { flimbs(r, a, 2); if(r.p(.1)) a.f[1] = a.f[0]; a.I(r.below(9)).I(r.below(4)); });
    add("rawbulk", "field light", [](Rng& r, AB& a) { flimbs(r, a, 64); a.I(r.below(9)); });
    add("inverse_bulk", "field light", [](Rng& r, AB& a) { flimbs(r, a, 8); });
    add("fp2_add fp2_sub fp2_mul fp2_misc", "field light", [](Rng& r, AB& a) { flimbs(r, a, 4); a.I(r.p(.3)); });
    add("fp2_sqr fp2_inv fp2_sqrt", "field light", [](Rng& r, AB& a) { flimbs(r, a, 2); if(r.p(.1)) a.f[1] = L6{}; });
    add("fp2_frob", "field light", [](Rng& r, AB& a) { flimbs(r, a, 2); a.I(frobPower(r)); });
    add("fp6_mul fp6_misc", "field light", [](Rng& r, AB& a) { flimbs(r, a, 12); a.I(r.p(.3)); });
    add("fp6_sqr fp6_inv", "field light", [](Rng& r, AB& a) { flimbs(r, a, 6); });
    add("fp12_mul fp12_misc", "field light", [](Rng& r, AB& a) { flimbs(r, a, 24); a.I(r.p(.3)); });
    add("fp12_sqr fp12_inv", "field light", [](Rng& r, AB& a) { flimbs(r, a, 12); });
    add("fp12_frob", "field light", [](Rng& r, AB& a) { flimbs(r, a, 12); a.I(frobPower(r)); });
    add("final_exp gt_valid", "pairing mid", [](Rng& r, AB& a) { flimbs(r, a, 12); });
    add("alias", "g1 light aliasing", [](Rng& r, AB& a) { flimbs(r, a, 24); G1 x = rp1(r); G2 y = rp2(r); a.P(x).Q(y).S(randSk(r)).I(r.below(28)).I(1).I(frobPower(r)); if(r.p(.3)) a.f[1] = a.f[0]; switch(r.below(6)) { case 0: a.P(x).Q(y); break; case 1: a.P(rerep(r, x.neg())).Q(rerep(r, y.neg())); break; default: a.P(rp1(r)).Q(rp2(r)); } });
    add("fp6_exp", "field mid", [](Rng& r, AB& a) { flimbs(r, a, 6); a.S(randScalar(r)); });
    add("fp12_exp cyclo_exp", "field mid", [](Rng& r, AB& a) { flimbs(r, a, 12); a.S(randScalar(r)); });
    add("gt_exp gt_inv gt_check", "pairing mid", [](Rng& r, AB& a) { flimbs(r, a, 12); a.S(randScalar(r)).I(r.below(4)); });
    add("gt_equal", "field light", [](Rng& r, AB& a) { flimbs(r, a, 24); int n = r.below(13); for(int i = 0; i < 12; i++) if(i != n) a.f[12 + i] = a.f[i]; });
    add("miller_raw", "pairing heavy alloc", [](Rng& r, AB& a) { pairs(r, a, r.p(.15) ? 24 : 3, false); });
    // scalars and text
    add("scalar_bytes", "text light", [](Rng& r, AB& a) { a.S(randScalar(r)).M(r.bytes(32)); });
    add("scalar_math", "text light", [](Rng& r, AB& a) { a.S(randScalar(r)).S(r.p(.2) ? a.sc[0] : randScalar(r)).I(r.below(256)); });
    add("words", "field light", [](Rng& r, AB& a) { for(int i = 0; i < 5; i++) a.I(r.p(.3) ? ~0ull : r.p(.2) ? 0 : r.p(.2) ? 1ull << r.below(64) : r.next()); });
    add("constants", "field light", [](Rng& r, AB& a) { (void)r; (void)a; });
    add("compare", "field light", [](Rng& r, AB& a) { flimbs(r, a, 24); if(r.p(.5)) { a.f[1] = a.f[0]; a.f[2] = a.f[0]; a.f[3] = a.f[1]; } pair1(r, a); pair2(r, a); });
    add("g1_swu", "g1 mid", [](Rng& r, AB& a) { flimbs(r, a, 1); });
    add("g2_swu fp4_square", "g2 mid", [](Rng& r, AB& a) { flimbs(r, a, 4); });
    add("bn_div", "text light", [](Rng& r, AB& a) { a.S(randScalar(r)).S(r.p(.5) ? randScalar(r) : Sc{}); a.S(ref::Rr); });
    add("bytesToHex", "text light alloc", [](Rng& r, AB& a) { a.M(randMsg(r, 300)); });
    add("hexToBytes", "text light alloc", [](Rng& r, AB& a) { str s = (r.p(.5) ? "0x" : "") + hex(randMsg(r, 100)); if(r.p(.2) && s.size()) s.pop_back(); if(r.p(.1)) s = s.substr(0, r.below(4)); a.M(Bytes(s.begin(), s.end())); });
    add("hex48", "text light alloc", [](Rng& r, AB& a) { str s = (r.p(.5) ? "0x" : "") + hex(r.bytes(48)); if(r.p(.1)) s += "0"; a.M(Bytes(s.begin(), s.end())); });   // the fixed-size decoder documents that it does not check the length
    return T;
}
}
// one argument slightly different: what a cache keyed by part of its input takes for the same
static void mutate(AB& a, u64 m, bool ints) {
    Rng r(m, 31); vec<int> k; auto opt = [&](bool b, int c) { if(b) k.push_back(c); };
    opt(a.p1.size(), 0); opt(a.p2.size(), 1); opt(a.sc.size(), 2); opt(a.f.size(), 3); opt(a.m.size(), 4); opt(a.m.size(), 4); opt(ints && a.in.size(), 5); if(k.empty()) return;
    static const Fp beta = [] { Fp t = Fp::of(3).neg(), s; t.sqrt(s); return (s - Fp::one()) * Fp::of(2).inv(); }();      // cube root of one
    auto seq = [&](auto& v) { if(v.size() > 1 && r.p(.2)) { switch(r.below(3)) { case 0: std::swap(v[r.below(v.size())], v[r.below(v.size())]); break; case 1: v.pop_back(); break; default: v[r.below(v.size())] = v[r.below(v.size())]; } return true; } return false; };
    const Pool& P = pool();
    auto nearz = [&](Fp z) { for(int i = 0; i < 8; i++) { Fp y = z; int k = r.p(.4) ? 5 : r.below(6); y.d[k] ^= 1ull << (k == 5 ? r.below(60) : r.below(64)); if(!y.isz() && ref::cmp(y.d, ref::PP) < 0) return y; } return z; };   // all but one limb the same
    switch(r.pick(k)) {
        case 0: { if(seq(a.p1)) return; Bytes& b = a.p1[r.below(a.p1.size())]; auto p = ref::fromjac<Fp>(b, false); if(!p) return; G1 q = *p; switch(r.below(6)) { case 5: if(!q.inf()) q = q.norm().rerep(nearz(q.z)); break; case 0: q = q.neg(); break; case 1: q.x = q.x * beta; break; case 2: if(!q.inf()) q = P.p1[r.below(6)].rerep(q.z); break; case 3: q = rerep(r, q); break; default: q = q.dbl(); } b = ref::jacbe(q); break; }
        case 1: { if(seq(a.p2)) return; Bytes& b = a.p2[r.below(a.p2.size())]; auto p = ref::fromjac<Fp2>(b, false); if(!p) return; G2 q = *p; switch(r.below(6)) { case 5: if(!q.inf()) { Fp2 z = q.z; Fp& c = r.p(.5) ? z.a : z.b; c = nearz(c); q = q.norm().rerep(z); } break; case 0: q = q.neg(); break; case 1: q.x = q.x * Fp2{beta, Fp{}}; break; case 2: if(!q.inf()) q = P.p2[r.below(6)].rerep(q.z); break; case 3: q = rerep(r, q); break; default: q = q.dbl(); } b = ref::jacbe(q); break; }
        case 2: { if(seq(a.sc)) return; Sc& s = a.sc[r.below(a.sc.size())]; switch(r.below(3)) { case 0: s[r.below(4)] ^= 1ull << r.below(62); break; case 1: s[0] ^= 1; break; default: if(ref::cmp(s, ref::Rr) < 0) s = ref::negr(s); else ref::subto(s, ref::Rr); } break; }
        case 3: { if(seq(a.f)) return; L6& x = a.f[r.below(a.f.size())]; L6 y = x; switch(r.below(3)) { case 0: y[r.below(6)] ^= 1ull << r.below(64); break; case 1: y = ref::PP; ref::subto(y, x); break; default: y[0] ^= 1; } if(ref::cmp(y, ref::PP) < 0) x = y; break; }
        case 4: { if(a.m.size() > 1 && seq(a.m)) return; Bytes& b = a.m[r.below(a.m.size())]; switch(r.below(6)) { case 0: if(b.size()) { b[r.below(b.size())] ^= 1 << r.below(8); break; } [[fallthrough]]; case 1: b.push_back(r.below(3)); break; case 2: if(b.size()) b.pop_back(); break; case 3: if(b.size()) b.back() ^= 1; break; case 4: if(b.size()) b[b.size() / 2] ^= 0x20; break; default: if(b.size()) b[0] ^= 0x20; } break; }
        default: { u64& x = a.in[r.below(a.in.size())]; x ^= 1; }
    }
}
OpInst makeOp(const str& name, u64 seed, u64 mut) {
    auto i = table().find(name); if(i == table().end()) { fprintf(stderr, "no generator for %s\n", name.c_str()); abort(); }
    OpInst o; o.name = name; o.seed = seed; Rng r(seed, hstr(name)); i->second.g(r, o.a);
    if(mut && name != "bn_div") mutate(o.a, mut, name.compare(0, 6, "derive") == 0 || name.compare(0, 4, "hkdf") == 0 || name == "xmd_sh256" || name == "parent_sk_to_lamport_pk" || name == "aggregate_verify" || name.find("_mask") != str::npos || name == "sk_from_bytes" || name.find("toBytes") != str::npos);
    return o;
}
const vec<str>& opNames() { static vec<str> v; if(v.empty()) for(auto& k : table()) v.push_back(k.first); return v; }
vec<str> opNamesWhere(const char* k) { vec<str> v; for(auto& e : table()) if(e.second.cls.find(str(" ") + k + " ") != str::npos) v.push_back(e.first); return v; }
bool canFailByCode(const str& op, const Res& r) {
    auto v = r.v(); if(v.empty()) return false;
    if(op.compare(0, 4, "hkdf") == 0 || op == "xmd_sh256") return v[0].tag == 'B' && v[0].b[0] != 0;
    if(op == "secret_key" || op == "derive_child_sk") return v[0].tag == 'S' && v[0].b == Bytes(32);
    return false;
}
