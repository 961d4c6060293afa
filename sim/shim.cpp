// Compiled together with /repo's sources into every simulated host. Contains no logic of its own: it turns
// serialised arguments into the library's types, calls one public operation, and serialises the result.
#include <bls12-381/bls12-381.hpp>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <memory>
#include <new>
#include <exception>
#include <string>
#include "api.h"
using namespace bls12_381;
using std::array; using std::vector; using std::span; using std::string; using std::tuple; using std::optional;
namespace {
typedef array<uint64_t,4> sc_t;
struct Buf { uint8_t* p = nullptr; size_t n = 0; bool own = false; span<const uint8_t> sp() const { return {p, n}; } };
struct Args {
    int op = 0;
    vector<g1> p1; vector<g2> p2; vector<sc_t> sc; vector<fp> f; vector<uint64_t> in; vector<Buf> m;
    vector<vector<uint8_t>> mv;               // messages as vectors, for aggregate_verify
    vector<tuple<g1,g2>> pairs;
    vector<uint8_t> snap;                     // copy of every argument byte
    bool bad = false;
    ~Args() { for(auto& b : m) if(b.own) free(b.p); }
    uint64_t i(size_t k) const { return k < in.size() ? in[k] : 0; }
    void snapshot(vector<uint8_t>& v) const {
        auto put = [&](const void* p, size_t n) { v.insert(v.end(), (const uint8_t*)p, (const uint8_t*)p + n); };
        put(p1.data(), p1.size()*sizeof(g1)); put(p2.data(), p2.size()*sizeof(g2)); put(sc.data(), sc.size()*32);
        put(f.data(), f.size()*48); put(in.data(), in.size()*8);
        for(auto& b : m) put(b.p, b.n);
        for(auto& b : mv) put(b.data(), b.size());
        for(auto& t : pairs) { put(&std::get<0>(t), sizeof(g1)); put(&std::get<1>(t), sizeof(g2)); }
    }
};
struct Bad {};
struct Out {
    uint8_t* p; size_t cap; size_t n = 0;
    void raw(const void* d, size_t k) { if(n + k > cap) abort(); memcpy(p + n, d, k); n += k; }
    void tag(char c) { raw(&c, 1); }
    void b(int v) { tag('B'); uint8_t x = (uint8_t)v; raw(&x, 1); }
    void none() { tag('N'); }
    void P(const g1& e) { tag('P'); auto a = e.toJacobianBytesBE(); raw(a.data(), 144); }
    void Q(const g2& e) { tag('Q'); auto a = e.toJacobianBytesBE(); raw(a.data(), 288); }
    void F(const fp& e) { tag('F'); auto a = e.toBytesBE(); raw(a.data(), 48); }
    void F2(const fp2& e) { F(e.c0); F(e.c1); }
    void F6(const fp6& e) { F2(e.c0); F2(e.c1); F2(e.c2); }
    void F12(const fp12& e) { F6(e.c0); F6(e.c1); }
    void L(const fp& e) { tag('L'); raw(e.d.data(), 48); }
    void S(const sc_t& s) { tag('S'); for(int i = 3; i >= 0; i--) for(int k = 56; k >= 0; k -= 8) { uint8_t x = s[i] >> k; raw(&x, 1); } }
    void Y(const void* d, size_t k) { tag('Y'); uint32_t l = (uint32_t)k; raw(&l, 4); raw(d, k); }
    template<size_t N> void Y(const array<uint8_t,N>& a) { Y(a.data(), N); }
    void oP(const optional<g1>& o) { if(o) P(*o); else none(); }
    void oQ(const optional<g2>& o) { if(o) Q(*o); else none(); }
};
typedef void (*Fn)(Args&, const BlsHooks&, Out&);
struct Op { const char* name; Fn fn; };
#define A a
#define OP(name) {#name, [](Args& a, const BlsHooks& h, Out& o) { (void)a; (void)h; (void)o;
#define END }},
std::function<void()> cb(const BlsHooks& h) {
    if(!h.yield) return {};
    const BlsHooks* hp = &h;
    return [hp]() { hp->yield(hp->ctx); };
}
template<size_t N> span<const uint8_t, N> fix(const Args& a, size_t k = 0) {
    if(a.m.size() <= k || a.m[k].n != N) throw Bad{};
    return span<const uint8_t, N>(a.m[k].p, N);
}
const fp& F1(const Args& a, size_t k) { if(a.f.size() <= k) throw Bad{}; return a.f[k]; }
fp2 f2(const Args& a, size_t k) { return fp2({F1(a,2*k), F1(a,2*k+1)}); }
fp6 f6(const Args& a, size_t k) { return fp6({f2(a,3*k), f2(a,3*k+1), f2(a,3*k+2)}); }
fp12 f12(const Args& a, size_t k) { return fp12({f6(a,2*k), f6(a,2*k+1)}); }
const g1& P(const Args& a, size_t k) { if(a.p1.size() <= k) throw Bad{}; return a.p1[k]; }
const g2& Q(const Args& a, size_t k) { if(a.p2.size() <= k) throw Bad{}; return a.p2[k]; }
const sc_t& S(const Args& a, size_t k) { if(a.sc.size() <= k) throw Bad{}; return a.sc[k]; }
span<const uint8_t> M(const Args& a, size_t k) { if(a.m.size() <= k) throw Bad{}; return a.m[k].sp(); }
conv_opt co(const Args& a) { return conv_opt{ .check_valid = a.i(0) != 0, .to_mont = a.i(1) == 0 }; }   // i1: bytes hold the Montgomery form
from_mont fmo(const Args& a) { return a.i(0) ? from_mont::no : from_mont::yes; }
from_mont fmi(const Args& a) { return a.i(1) ? from_mont::no : from_mont::yes; }

// A message too long to hash in a test: only its first 64 KiB can be read. Returns whether the function went on to read the rest.
sigjmp_buf beyond; char* hugeAt; size_t hugeLen;
void onRead(int sig, siginfo_t* si, void*) { char* p = (char*)si->si_addr; if(p >= hugeAt && p < hugeAt + hugeLen) siglongjmp(beyond, 1); signal(sig, SIG_DFL); }
template<class F> bool readsOn(size_t n, F f) {
    hugeLen = n; hugeAt = (char*)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(hugeAt == MAP_FAILED) return true;
    mprotect(hugeAt, 65536, PROT_READ | PROT_WRITE); memset(hugeAt, 0x61, 65536);
    struct sigaction sa{}, old; sa.sa_sigaction = onRead; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, &old); volatile bool r = false;
    if(!sigsetjmp(beyond, 1)) f(span<const uint8_t>((const uint8_t*)hugeAt, n)); else r = true;
    sigaction(SIGSEGV, &old, nullptr); munmap(hugeAt, n); return r;
}
const Op OPS[] = {
// ---- signatures
OP(public_key) o.P(public_key(S(a,0))); END
OP(huge_message) bool r = false; switch(a.i(1)) { case 0: r = readsOn(a.i(0), [&](auto m) { fromMessage(m, CIPHERSUITE_ID); }); break; case 1: r = readsOn(a.i(0), [&](auto m) { sign(S(a,0), m); }); break; case 2: r = readsOn(a.i(0), [&](auto m) { verify(P(a,0), m, Q(a,0)); }); break; default: r = readsOn(a.i(0), [&](auto m) { uint8_t b[64]; xmd_sh256(b, 64, m.data(), m.size(), (const uint8_t*)"TAG", 3); }); } o.b(r); END
OP(sign) o.Q(sign(S(a,0), M(a,0))); END
OP(verify) o.b(verify(P(a,0), M(a,0), Q(a,0))); END
OP(aggregate_secret_keys) o.S(aggregate_secret_keys(a.sc)); END
OP(aggregate_public_keys) o.P(aggregate_public_keys(span<const g1>(a.p1))); END
OP(aggregate_signatures) o.Q(aggregate_signatures(span<const g2>(a.p2))); END
OP(aggregate_public_keys_mask)
    struct T { g1 k; }; vector<T> v; v.reserve(a.p1.size()); for(auto& p : a.p1) v.push_back(T{p});
    o.P(aggregate_public_keys(span<T>(v), [](const T& t) { return t.k; }, [&](const T&, size_t i) { return a.i(i) != 0; })); END
OP(aggregate_signatures_mask)
    struct T { g2 k; }; vector<T> v; v.reserve(a.p2.size()); for(auto& p : a.p2) v.push_back(T{p});
    o.Q(aggregate_signatures(span<T>(v), [](const T& t) { return t.k; }, [&](const T&, size_t i) { return a.i(i) != 0; })); END
OP(aggregate_public_keys_all)
    struct T { int pad; g1 k; }; vector<T> v; v.reserve(a.p1.size()); for(auto& p : a.p1) v.push_back(T{7, p});
    o.P(aggregate_public_keys(span<T>(v), [](const T& t) { return t.k; })); END
OP(aggregate_signatures_all)
    struct T { int pad; g2 k; }; vector<T> v; v.reserve(a.p2.size()); for(auto& p : a.p2) v.push_back(T{7, p});
    o.Q(aggregate_signatures(span<T>(v), [](const T& t) { return t.k; })); END
OP(aggregate_verify) o.b(aggregate_verify(a.p1, a.mv, Q(a,0), a.i(0) != 0)); END
OP(sk_from_bytes) array<uint8_t,32> b; auto s = fix<32>(a); memcpy(b.data(), s.data(), 32); o.S(sk_from_bytes(b, a.i(0) != 0)); END
OP(sk_to_bytes) o.Y(sk_to_bytes(S(a,0))); END
OP(pop_prove) o.Q(pop_prove(S(a,0))); END
OP(pop_verify) o.b(pop_verify(P(a,0), Q(a,0))); END
OP(pop_fast_aggregate_verify) o.b(pop_fast_aggregate_verify(a.p1, M(a,0), Q(a,0))); END
OP(from_message) auto d = M(a,1); string dst((const char*)d.data(), d.size()); o.Q(fromMessage(M(a,0), dst)); END
OP(secret_key) o.S(secret_key(M(a,0))); END
OP(derive_child_sk) o.S(derive_child_sk(S(a,0), (uint32_t)a.i(0))); END
OP(derive_child_sk_unhardened) o.S(derive_child_sk_unhardened(S(a,0), (uint32_t)a.i(0))); END
OP(derive_child_g1_unhardened) o.P(derive_child_g1_unhardened(P(a,0), (uint32_t)a.i(0))); END
OP(derive_child_g2_unhardened) o.Q(derive_child_g2_unhardened(Q(a,0), (uint32_t)a.i(0))); END
OP(parent_sk_to_lamport_pk) array<uint8_t,32> r{}; parent_sk_to_lamport_pk(r.data(), S(a,0), (uint32_t)a.i(0)); o.Y(r); END
OP(ikm_to_lamport_sk) uint8_t r[32*255]; memset(r, 0, sizeof r);
    auto k = M(a,0), s = M(a,1); ikm_to_lamport_sk(r, k.data(), k.size(), s.data(), s.size()); o.Y(r, sizeof r); END
OP(hkdf256_hmac) array<uint8_t,32> r{}; auto i = M(a,0), k = M(a,1);
    int s = hkdf256_hmac(r.data(), i.data(), i.size(), k.data(), k.size()); o.b(s); if(!s) o.Y(r); END
OP(hkdf256_extract) array<uint8_t,32> r{}; auto i = M(a,0), k = M(a,1);
    int s = hkdf256_extract(r.data(), i.data(), i.size(), k.data(), k.size()); o.b(s); if(!s) o.Y(r); END
OP(hkdf256_expand) uint8_t r[256*32]; memset(r, 0x5a, sizeof r); auto k = fix<32>(a,0); auto i = M(a,1);
    size_t L = a.i(0); int s = hkdf256_expand(r, L, k.data(), i.data(), i.size()); o.b(s); if(!s) o.Y(r, L < sizeof r ? L : 0); END
OP(hkdf256_extract_expand) uint8_t r[256*32]; memset(r, 0x5a, sizeof r); auto k = M(a,0), sl = M(a,1), i = M(a,2);
    size_t L = a.i(0); int s = hkdf256_extract_expand(r, L, k.data(), k.size(), sl.data(), sl.size(), i.data(), i.size());
    o.b(s); if(!s) o.Y(r, L < sizeof r ? L : 0); END
OP(xmd_sh256) uint8_t r[256*32]; memset(r, 0x5a, sizeof r); auto i = M(a,0), d = M(a,1); int L = (int)a.i(0);
    if(L > 256*32) throw Bad{};
    int s = xmd_sh256(r, L, i.data(), (int)i.size(), d.data(), (int)d.size()); o.b(s); if(!s) o.Y(r, L); END
// ---- G1
OP(g1_add) o.P(P(a,0).add(P(a,1))); END
OP(g1_addAssign) g1 r = P(a,0); if(a.i(0)) r.addAssign(r); else r.addAssign(P(a,1)); o.P(r); END
OP(g1_dbl) g1 r = P(a,0); r.doubleAssign(); o.P(P(a,0).dbl()); o.P(r); END
OP(g1_negate) o.P(P(a,0).negate()); END
OP(g1_subtract) o.P(P(a,0).subtract(P(a,1))); END
OP(g1_subtractAssign) g1 r = P(a,0); if(a.i(0)) r.subtractAssign(r); else r.subtractAssign(P(a,1)); o.P(r); END
OP(g1_scale) o.P(P(a,0).scale(S(a,0))); END
OP(g1_equal) o.b(P(a,0).equal(P(a,1))); END
OP(g1_props) o.b(P(a,0).isZero()); o.b(P(a,0).isOnCurve()); END
OP(g1_inCorrectSubgroup) o.b(P(a,0).inCorrectSubgroup()); END
OP(g1_affine) o.P(P(a,0).affine()); o.b(P(a,0).affine().isAffine()); END
OP(g1_clearCofactor) o.P(P(a,0).clearCofactor()); END
OP(g1_glv) o.P(P(a,0).glvEndomorphism()); END
OP(g1_mapToCurve) o.P(g1::mapToCurve(F1(a,0))); END
OP(g1_weightedSum) if(h.yield) o.P(g1::weightedSum(a.p1, a.sc, cb(h))); else o.P(g1::weightedSum(a.p1, a.sc)); END
OP(g1_toCompressed) o.Y(P(a,0).toCompressedBytesBE()); END
OP(g1_toAffineBE) o.Y(P(a,0).toAffineBytesBE(fmo(a))); END
OP(g1_toAffineLE) o.Y(P(a,0).toAffineBytesLE(fmo(a))); END
OP(g1_toJacobianBE) o.Y(P(a,0).toJacobianBytesBE(fmo(a))); END
OP(g1_toJacobianLE) o.Y(P(a,0).toJacobianBytesLE(fmo(a))); END
OP(g1_fromCompressed) o.oP(g1::fromCompressedBytesBE(fix<48>(a))); END
OP(g1_fromAffineBE) o.oP(g1::fromAffineBytesBE(fix<96>(a), co(a))); END
OP(g1_fromAffineLE) o.oP(g1::fromAffineBytesLE(fix<96>(a), co(a))); END
OP(g1_fromJacobianBE) o.oP(g1::fromJacobianBytesBE(fix<144>(a), co(a))); END
OP(g1_fromJacobianLE) o.oP(g1::fromJacobianBytesLE(fix<144>(a), co(a))); END
// ---- G2
OP(g2_add) o.Q(Q(a,0).add(Q(a,1))); END
OP(g2_addAssign) g2 r = Q(a,0); if(a.i(0)) r.addAssign(r); else r.addAssign(Q(a,1)); o.Q(r); END
OP(g2_dbl) g2 r = Q(a,0); r.doubleAssign(); o.Q(Q(a,0).dbl()); o.Q(r); END
OP(g2_negate) o.Q(Q(a,0).negate()); END
OP(g2_subtract) o.Q(Q(a,0).subtract(Q(a,1))); END
OP(g2_subtractAssign) g2 r = Q(a,0); if(a.i(0)) r.subtractAssign(r); else r.subtractAssign(Q(a,1)); o.Q(r); END
OP(g2_scale) o.Q(Q(a,0).scale(S(a,0))); END
OP(g2_equal) o.b(Q(a,0).equal(Q(a,1))); END
OP(g2_props) o.b(Q(a,0).isZero()); o.b(Q(a,0).isOnCurve()); END
OP(g2_inCorrectSubgroup) o.b(Q(a,0).inCorrectSubgroup()); END
OP(g2_affine) o.Q(Q(a,0).affine()); o.b(Q(a,0).affine().isAffine()); END
OP(g2_clearCofactor) o.Q(Q(a,0).clearCofactor()); END
OP(g2_psi) o.Q(Q(a,0).psi()); END
OP(g2_frobenius) o.Q(Q(a,0).frobeniusMap((int64_t)(a.i(0) & ~(1ull << 63)))); END
OP(g2_mapToCurve) o.Q(g2::mapToCurve(f2(a,0))); END
OP(g2_weightedSum) if(h.yield) o.Q(g2::weightedSum(a.p2, a.sc, cb(h))); else o.Q(g2::weightedSum(a.p2, a.sc)); END
OP(g2_toCompressed) o.Y(Q(a,0).toCompressedBytesBE()); END
OP(g2_toAffineBE) o.Y(Q(a,0).toAffineBytesBE(fmo(a))); END
OP(g2_toAffineLE) o.Y(Q(a,0).toAffineBytesLE(fmo(a))); END
OP(g2_toJacobianBE) o.Y(Q(a,0).toJacobianBytesBE(fmo(a))); END
OP(g2_toJacobianLE) o.Y(Q(a,0).toJacobianBytesLE(fmo(a))); END
OP(g2_fromCompressed) o.oQ(g2::fromCompressedBytesBE(fix<96>(a))); END
OP(g2_fromAffineBE) o.oQ(g2::fromAffineBytesBE(fix<192>(a), co(a))); END
OP(g2_fromAffineLE) o.oQ(g2::fromAffineBytesLE(fix<192>(a), co(a))); END
OP(g2_fromJacobianBE) o.oQ(g2::fromJacobianBytesBE(fix<288>(a), co(a))); END
OP(g2_fromJacobianLE) o.oQ(g2::fromJacobianBytesLE(fix<288>(a), co(a))); END
// ---- pairing
OP(pairing) vector<tuple<g1,g2>> v; for(size_t i = 0; i < a.p1.size() && i < a.p2.size(); i++) pairing::add_pair(v, a.p1[i], a.p2[i]);
    fp12 r = h.yield ? pairing::calculate(v, cb(h)) : pairing::calculate(v); o.F12(r); END
OP(pairing_raw) fp12 r = h.yield ? pairing::calculate(a.pairs, cb(h)) : pairing::calculate(a.pairs); o.F12(r); END
OP(miller_loop) vector<tuple<g1,g2>> v; for(size_t i = 0; i < a.p1.size() && i < a.p2.size(); i++) pairing::add_pair(v, a.p1[i], a.p2[i]);
    fp12 r = pairing::miller_loop(v, h.yield ? cb(h) : std::function<void()>()); pairing::final_exponentiation(r); o.F12(r); END
OP(miller_raw) vector<tuple<g1,g2>> v; for(size_t i = 0; i < a.p1.size() && i < a.p2.size(); i++) pairing::add_pair(v, a.p1[i], a.p2[i]);
    fp12 r = pairing::miller_loop(v, h.yield ? cb(h) : std::function<void()>()); o.F12(r); END
OP(gt_exp) fp12 x = f12(a,0); if(a.i(0) == 0) o.F12(x.cyclotomicExp(S(a,0))); else if(a.i(0) == 1) o.F12(x.exp(S(a,0))); else if(a.i(0) == 2) { array<uint64_t,6> w{}; for(int i = 0; i < 4; i++) w[i] = S(a,0)[i]; o.F12(x.cyclotomicExp(w)); } else o.F12(x.cyclotomicExp(array<uint64_t,1>{S(a,0)[0]})); END
OP(gt_inv) fp12 x = f12(a,0); o.F12(a.i(0) ? x.inverse() : x.conjugate()); END
OP(gt_equal) const fp12 x = f12(a,0), y = f12(a,1); o.b(x.equal(y)); o.b(y.equal(x)); o.b(x.equal(x)); o.b(x.isZero()); END
OP(gt_check) fp12 x = f12(a,0); o.b(x.isGtValid()); o.b(x.isOne()); o.b(x.equal(fp12::one())); END
// ---- fp (inputs are raw limbs in Montgomery form)
OP(fp_add) const fp& x = F1(a,0); const fp& y = F1(a,1); fp r; r = x.add(y); o.L(r); r = x; r.addAssign(y); o.L(r); END
OP(fp_sub) const fp& x = F1(a,0); const fp& y = F1(a,1); fp r; r = x.subtract(y); o.L(r); r = x; r.subtractAssign(y); o.L(r); END
OP(fp_mul) const fp& x = F1(a,0); const fp& y = F1(a,1); fp r; r = x.multiply(y); o.L(r); r = x; r.multiplyAssign(y); o.L(r); END
OP(fp_sqr) const fp& x = F1(a,0); fp r; r = x.square(); o.L(r); r = x; r.squareAssign(); o.L(r); END
OP(fp_dbl) const fp& x = F1(a,0); fp r; r = x.dbl(); o.L(r); r = x; r.doubleAssign(); o.L(r); END
OP(fp_neg) o.L(F1(a,0).negate()); END
OP(fp_inv) o.L(F1(a,0).inverse()); END
OP(fp_sqrt) fp c; bool s = F1(a,0).sqrt(c); o.b(s); if(s) o.L(c); END
OP(fp_preds) const fp& x = F1(a,0); o.b(x.isValid()); o.b(x.isZero()); o.b(x.isOne()); o.b(x.isOdd()); o.b(x.isEven()); o.b(x.sign()); o.b(x.isLexicographicallyLargest()); o.b(x.isQuadraticNonResidue()); END
OP(fp_equal) o.b(F1(a,0).equal(F1(a,1))); END
OP(fp_mont) o.L(F1(a,0).toMont()); o.L(F1(a,0).fromMont()); END
OP(fp_shift) fp x = F1(a,0); x.div2(a.i(0) & 1); o.L(x); x = F1(a,0); uint64_t c = x.mul2(); o.L(x); o.b((int)c); END
OP(fp_phi) o.L(F1(a,0).phi()); END
OP(fp_exp) o.L(F1(a,0).exp(S(a,0))); END
OP(fp_modPrime) if(a.f.size() < 2) throw Bad{}; array<uint64_t,8> k; for(int i = 0; i < 8; i++) k[i] = i < 6 ? a.f[0].d[i] : a.f[1].d[i-6]; o.L(fp::modPrime(k)); END
// raw[i0]: 0 add 1 ladd 2 double 3 ldouble 4 sub 5 lsub 6 neg 7 mul 8 sqr ; i1: alias mode 0 none 1 z=x 2 z=y 3 z=x=y
OP(raw) uint64_t w = a.i(0), al = a.i(1); fp x = F1(a,0), y = F1(a,1), r; memset(r.d.data(), 0x5a, 48);
    fp *X = &x, *Y = &y, *Z = &r; if(al == 1) Z = X; else if(al == 2) Z = Y; else if(al == 3) { Y = X; Z = X; }
    switch(w) { case 0: _add(Z,X,Y); break; case 1: _ladd(Z,X,Y); break; case 2: _double(Z,X); break; case 3: _ldouble(Z,X); break;
      case 4: _subtract(Z,X,Y); break; case 5: _lsubtract(Z,X,Y); break; case 6: _negate(Z,X); break; case 7: _multiply(Z,X,Y); break; case 8: _square(Z,X); break; default: throw Bad{}; }
    o.L(*Z); END
// rawbulk: many operand pairs at once (f = 2n limbs), all nine operations folded to limbs of each result
OP(rawbulk) uint64_t w = a.i(0); size_t n = a.f.size()/2; fp r; for(size_t i = 0; i < n; i++) { const fp* X = &a.f[2*i]; const fp* Y = &a.f[2*i+1]; fp* Z = &r;
    switch(w) { case 0: _add(Z,X,Y); break; case 1: _ladd(Z,X,Y); break; case 2: _double(Z,X); break; case 3: _ldouble(Z,X); break;
      case 4: _subtract(Z,X,Y); break; case 5: _lsubtract(Z,X,Y); break; case 6: _negate(Z,X); break; case 7: _multiply(Z,X,Y); break; case 8: _square(Z,X); break; default: throw Bad{}; }
    o.raw(r.d.data(), 48); } END
OP(inverse_bulk) for(auto& x : a.f) { fp r = x.inverse(); o.raw(r.d.data(), 48); } END
// alias: i0 = selector, i1 = 1: the same object is destination and/or several operands, 0: every operand has its own copy
OP(alias) const bool al = a.i(1) != 0; const fp X = F1(a,0), Y = F1(a,1); fp2 x2 = f2(a,0), y2 = f2(a,1); fp6 x6 = f6(a,0), y6 = f6(a,1); fp12 x12 = f12(a,0), y12 = f12(a,1); g1 p = P(a,0), pc = P(a,0); g2 q = Q(a,0), qc = Q(a,0);
    switch(a.i(0)) {
    case 0: { fp x = X, c; bool s = al ? x.sqrt(x) : X.sqrt(c); o.b(s); if(s) o.L(al ? x : c); break; }
    case 1: { fp2 x = x2, c; bool s = al ? x.sqrt(x) : x2.sqrt(c); o.b(s); if(s) o.F2(al ? x : c); break; }
    case 2: { fp x = X; x.addAssign(al ? x : X); o.L(x); x = X; x.subtractAssign(al ? x : X); o.L(x); x = X; x.multiplyAssign(al ? x : X); o.L(x); break; }
    case 3: { fp2 x = x2; x.addAssign(al ? x : x2); o.F2(x); x = x2; x.subtractAssign(al ? x : x2); o.F2(x); x = x2; x.multiplyAssign(al ? x : x2); o.F2(x); break; }
    case 4: { fp6 x = x6; x.addAssign(al ? x : x6); o.F6(x); x = x6; x.subtractAssign(al ? x : x6); o.F6(x); x = x6; x.multiplyAssign(al ? x : x6); o.F6(x); break; }
    case 5: { fp12 x = x12; x.addAssign(al ? x : x12); o.F12(x); x = x12; x.subtractAssign(al ? x : x12); o.F12(x); x = x12; x.multiplyAssign(al ? x : x12); o.F12(x); break; }
    case 6: { fp6 x = x6; x.mulBy01Assign(al ? x.c0 : x6.c0, al ? x.c1 : x6.c1); o.F6(x); x = x6; x.mulBy01Assign(al ? x.c2 : x6.c2, al ? x.c0 : x6.c0); o.F6(x); break; }
    case 7: { fp12 x = x12; x.mulBy014Assign(al ? x.c0.c0 : x12.c0.c0, al ? x.c0.c1 : x12.c0.c1, al ? x.c1.c1 : x12.c1.c1); o.F12(x); x = x12; x.mulBy014Assign(al ? x.c1.c0 : x12.c1.c0, al ? x.c0.c2 : x12.c0.c2, al ? x.c0.c0 : x12.c0.c0); o.F12(x); break; }
    case 8: { g1 r = p; r.addAssign(al ? r : pc); o.P(r); r = p; r.subtractAssign(al ? r : pc); o.P(r); r = al ? p.add(p) : p.add(pc); o.P(r); p = al ? p.subtract(p) : p.subtract(pc); o.P(p); break; }
    case 9: { g2 r = q; r.addAssign(al ? r : qc); o.Q(r); r = q; r.subtractAssign(al ? r : qc); o.Q(r); r = al ? q.add(q) : q.add(qc); o.Q(r); q = al ? q.subtract(q) : q.subtract(qc); o.Q(q); break; }
    case 10: { fp x = X, y = Y, r; _add(al ? &x : &r, &x, &y); o.L(al ? x : r); x = X; _add(al ? &y : &r, &x, &y); o.L(al ? y : r); x = X; fp c = X; _add(al ? &x : &r, &x, al ? &x : &c); o.L(al ? x : r); break; }
    case 11: { fp x = X, y = Y, r; _subtract(al ? &x : &r, &x, &y); o.L(al ? x : r); x = X; _subtract(al ? &y : &r, &x, &y); o.L(al ? y : r); x = X; fp c = X; _subtract(al ? &x : &r, &x, al ? &x : &c); o.L(al ? x : r); break; }
    case 12: { fp x = X, y = Y, r; _multiply(al ? &x : &r, &x, &y); o.L(al ? x : r); x = X; _multiply(al ? &y : &r, &x, &y); o.L(al ? y : r); x = X; fp c = X; _multiply(al ? &x : &r, &x, al ? &x : &c); o.L(al ? x : r); break; }
    case 13: { fp x = X, r; _square(al ? &x : &r, &x); o.L(al ? x : r); x = X; _negate(al ? &x : &r, &x); o.L(al ? x : r); x = X; _double(al ? &x : &r, &x); o.L(al ? x : r); break; }
    case 14: { fp x = X, y = Y, r; _ladd(al ? &x : &r, &x, &y); o.L(al ? x : r); x = X; _ladd(al ? &y : &r, &x, &y); o.L(al ? y : r); x = X; _ldouble(al ? &x : &r, &x); o.L(al ? x : r); break; }
    case 15: { fp x = X, y = Y, r; if(x < y) { x = Y; y = X; } fp sx = x; _lsubtract(al ? &x : &r, &x, &y); o.L(al ? x : r); x = sx; _lsubtract(al ? &y : &r, &x, &y); o.L(al ? y : r); break; }
    case 16: { fp2 y = y2; x2 = al ? x2.multiply(x2) : x2.multiply(fp2(x2)); o.F2(x2); y = al ? y.square() : y2.square(); o.F2(y); y = al ? y.inverse() : y2.square().inverse(); o.F2(y); y = al ? y.mulByFq(y.c0) : y.mulByFq(fp(y.c0)); o.F2(y); break; }
    case 17: { fp6 y = y6; o.F6(al ? y.mulBy01(y.c0, y.c1) : y6.mulBy01(fp2(y6.c0), fp2(y6.c1))); o.F6(al ? y.mulBy1(y.c1) : y6.mulBy1(fp2(y6.c1))); o.F6(al ? y.mulByBaseField(y.c2) : y6.mulByBaseField(fp2(y6.c2))); y = al ? y.multiply(y) : y6.multiply(fp6(y6)); o.F6(y); break; }
    case 18: { fp12 y = y12; y = al ? y.multiply(y) : y12.multiply(fp12(y12)); o.F12(y); break; }
    case 19: { sc_t s = S(a,0), t = S(a,0); vector<sc_t> v{s, t}, w; o.S(aggregate_secret_keys(v)); break; }
    // the remaining selectors: i1 = 1 in place, i1 = 0 into another object; i2 = power of Frobenius
    case 20: { { fp r = X; if(al) r.addAssign(Y); else r = X.add(Y); o.L(r); } { fp r = X; if(al) r.subtractAssign(Y); else r = X.subtract(Y); o.L(r); } { fp r = X; if(al) r.doubleAssign(); else r = X.dbl(); o.L(r); } { fp r = X; if(al) r.multiplyAssign(Y); else r = X.multiply(Y); o.L(r); } { fp r = X; if(al) r.squareAssign(); else r = X.square(); o.L(r); } break; }
    case 21: { uint64_t k = a.i(2); { fp2 r = x2; if(al) r.addAssign(y2); else r = x2.add(y2); o.F2(r); } { fp2 r = x2; if(al) r.subtractAssign(y2); else r = x2.subtract(y2); o.F2(r); } { fp2 r = x2; if(al) r.doubleAssign(); else r = x2.dbl(); o.F2(r); } { fp2 r = x2; if(al) r.multiplyAssign(y2); else r = x2.multiply(y2); o.F2(r); } { fp2 r = x2; if(al) r.squareAssign(); else r = x2.square(); o.F2(r); } { fp2 r = x2; if(al) r.frobeniusMapAssign(k); else r = x2.frobeniusMap(k % 12); o.F2(r); } break; }
    case 22: { uint64_t k = a.i(2); { fp6 r = x6; if(al) r.addAssign(y6); else r = x6.add(y6); o.F6(r); } { fp6 r = x6; if(al) r.subtractAssign(y6); else r = x6.subtract(y6); o.F6(r); } { fp6 r = x6; if(al) r.doubleAssign(); else r = x6.dbl(); o.F6(r); } { fp6 r = x6; if(al) r.multiplyAssign(y6); else r = x6.multiply(y6); o.F6(r); } { fp6 r = x6; if(al) r.squareAssign(); else r = x6.square(); o.F6(r); } { fp6 r = x6; if(al) r.frobeniusMapAssign(k); else r = x6.frobeniusMap(k % 12); o.F6(r); } { fp6 r = x6; if(al) r.mulBy01Assign(y6.c0, y6.c2); else r = x6.mulBy01(y6.c0, y6.c2); o.F6(r); } break; }
    case 23: { uint64_t k = a.i(2); { fp12 r = x12; if(al) r.addAssign(y12); else r = x12.add(y12); o.F12(r); } { fp12 r = x12; if(al) r.subtractAssign(y12); else r = x12.subtract(y12); o.F12(r); } { fp12 r = x12; if(al) r.doubleAssign(); else r = x12.dbl(); o.F12(r); } { fp12 r = x12; if(al) r.multiplyAssign(y12); else r = x12.multiply(y12); o.F12(r); } { fp12 r = x12; if(al) r.squareAssign(); else r = x12.square(); o.F12(r); } { fp12 r = x12; if(al) r.frobeniusMapAssign(k); else r = x12.frobeniusMap(k % 12); o.F12(r); } pairing::final_exponentiation(x12); { fp12 r = x12; if(al) r.cyclotomicSquareAssign(); else r = x12.cyclotomicSquare(); o.F12(r); } break; }
    case 24: { g1 e = P(a,1); { g1 r = p; if(al) r.addAssign(e); else r = p.add(e); o.P(r); } { g1 r = p; if(al) r.subtractAssign(e); else r = p.subtract(e); o.P(r); } { g1 r = p; if(al) r.doubleAssign(); else r = p.dbl(); o.P(r); } break; }
    case 25: { g2 e = Q(a,1); { g2 r = q; if(al) r.addAssign(e); else r = q.add(e); o.Q(r); } { g2 r = q; if(al) r.subtractAssign(e); else r = q.subtract(e); o.Q(r); } { g2 r = q; if(al) r.doubleAssign(); else r = q.dbl(); o.Q(r); } break; }
    // into the caller's buffer (i1 = 1) or as a returned array (i1 = 0)
    case 26: { from_mont m = a.i(2) & 1 ? from_mont::no : from_mont::yes;
        auto two = [&](auto n, auto into, auto ret) { constexpr size_t N = decltype(n)::value; array<uint8_t,N> b; b.fill(0x5a); if(al) { alignas(64) uint8_t at[N + 16]; memset(at, 0x5a, N + 16); uint8_t* w = at + X.d[0] % 16; into(span<uint8_t,N>(w, N)); memcpy(b.data(), w, N); } else b = ret(); o.Y(b); };
        #define TWO(N, call) two(std::integral_constant<size_t,N>(), [&](span<uint8_t,N> b) { call(b, m); }, [&] { return call(m); })
        TWO(48, X.toBytesBE); TWO(48, X.toBytesLE); TWO(96, x2.toBytesBE); TWO(96, x2.toBytesLE); TWO(288, x6.toBytesBE); TWO(288, x6.toBytesLE); TWO(576, x12.toBytesBE); TWO(576, x12.toBytesLE);
        TWO(144, p.toJacobianBytesBE); TWO(144, p.toJacobianBytesLE); TWO(96, p.toAffineBytesBE); TWO(96, p.toAffineBytesLE); TWO(288, q.toJacobianBytesBE); TWO(288, q.toJacobianBytesLE); TWO(192, q.toAffineBytesBE); TWO(192, q.toAffineBytesLE);
        { array<uint8_t,48> b; b.fill(0x5a); if(al) { alignas(64) uint8_t at[64]; uint8_t* w = at + X.d[0] % 16; p.toCompressedBytesBE(span<uint8_t,48>(w, 48)); memcpy(b.data(), w, 48); } else b = p.toCompressedBytesBE(); o.Y(b); } { array<uint8_t,96> b; b.fill(0x5a); if(al) { alignas(64) uint8_t at[112]; uint8_t* w = at + X.d[0] % 16; q.toCompressedBytesBE(span<uint8_t,96>(w, 96)); memcpy(b.data(), w, 96); } else b = q.toCompressedBytesBE(); o.Y(b); } break; }
    case 27: { sc_t s = S(a,0); array<uint8_t,32> b; b.fill(0x5a); if(al) scalar::toBytesBE<4>(s, b); else b = scalar::toBytesBE<4>(s); o.Y(b); sc_t t{}; if(al) scalar::fromBytesBE<4>(span<const uint8_t,32>(b), t); else t = scalar::fromBytesBE<4>(span<const uint8_t,32>(b)); o.S(t);
        b.fill(0x5a); if(al) scalar::toBytesLE<4>(s, b); else b = scalar::toBytesLE<4>(s); o.Y(b); if(al) scalar::fromBytesLE<4>(span<const uint8_t,32>(b), t); else t = scalar::fromBytesLE<4>(span<const uint8_t,32>(b)); o.S(t);
        sc_t u = s; for(uint64_t k : {uint64_t(0), a.i(2), uint64_t(63), uint64_t(64), 64 + a.i(2), uint64_t(255)}) { sc_t v{}; if(al) { v = u; scalar::rsh<4>(v, v, k); } else scalar::rsh<4>(v, u, k); o.S(v); }
        string h; array<uint8_t,32> c = b; if(al) h = bytesToHex<32>(span<const uint8_t,32>(c)); else h = bytesToHex(span<const uint8_t>(c.data(), 32)); o.Y(h.data(), h.size());
        if(al) { c.fill(0); hexToBytes<32>(h, span<uint8_t,32>(c)); } else { auto v = hexToBytes(std::string_view(h)); if(v.size() == 32) memcpy(c.data(), v.data(), 32); } o.Y(c);
        // exponents of another width
        array<uint64_t,6> w6{}; for(int k = 0; k < 4; k++) w6[k] = s[k]; o.L(al ? X.exp(w6) : X.exp(s)); o.F2(al ? x2.exp(w6) : x2.exp(s)); o.P(al ? p.scale(w6) : p.scale(s)); array<uint64_t,1> w1{s[0]}; sc_t s1{s[0]}; o.Q(al ? q.scale(w1) : q.scale(s1)); o.P(al ? p.scale(w1) : p.scale(s1)); break; }
    default: throw Bad{}; } END
OP(fp6_exp) o.F6(f6(a,0).exp(S(a,0))); END
OP(fp12_exp) o.F12(f12(a,0).exp(S(a,0))); END
OP(cyclo_exp) fp12 x = f12(a,0); pairing::final_exponentiation(x); o.F12(x.cyclotomicExp(S(a,0))); END
// ---- tower
OP(fp2_add) fp2 x = f2(a,0), y = f2(a,1); fp2 r = x; r.addAssign(y); o.F2(x.add(y)); o.F2(r); END
OP(fp2_sub) fp2 x = f2(a,0), y = f2(a,1); fp2 r = x; r.subtractAssign(y); o.F2(x.subtract(y)); o.F2(r); END
OP(fp2_mul) fp2 x = f2(a,0), y = f2(a,1); fp2 r = x; if(a.i(0)) r.multiplyAssign(r); else r.multiplyAssign(y); o.F2(x.multiply(y)); o.F2(r); END
OP(fp2_sqr) fp2 x = f2(a,0); fp2 r = x; r.squareAssign(); o.F2(x.square()); o.F2(r); END
OP(fp2_misc) fp2 x = f2(a,0); o.F2(x.dbl()); fp2 d = x; d.doubleAssign(); o.F2(d); o.F2(x.negate()); o.F2(x.conjugate()); o.F2(x.mulByNonResidue()); o.F2(x.mulByB()); o.F2(x.mulByFq(f2(a,1).c0)); o.b(x.sign()); o.b(x.isLexicographicallyLargest()); o.b(x.isQuadraticNonResidue()); o.b(x.isZero()); o.b(x.equal(f2(a,1))); END
OP(fp2_inv) o.F2(f2(a,0).inverse()); END
OP(fp2_sqrt) fp2 c; bool s = f2(a,0).sqrt(c); o.b(s); if(s) o.F2(c); END
OP(fp2_frob) uint64_t k = a.i(0); fp2 x = f2(a,0); fp2 r = x; r.frobeniusMapAssign(k); o.F2(x.frobeniusMap(k)); o.F2(r); END
OP(fp2_exp) o.F2(f2(a,0).exp(S(a,0))); END
OP(fp6_mul) fp6 x = f6(a,0), y = f6(a,1); fp6 r = x; if(a.i(0)) r.multiplyAssign(r); else r.multiplyAssign(y); o.F6(x.multiply(y)); o.F6(r); END
OP(fp6_sqr) fp6 x = f6(a,0); fp6 r = x; r.squareAssign(); o.F6(x.square()); o.F6(r); END
OP(fp6_misc) fp6 x = f6(a,0), y = f6(a,1); o.F6(x.add(y)); o.F6(x.subtract(y)); o.F6(x.dbl()); o.F6(x.negate()); o.F6(x.mulByNonResidue()); o.F6(x.mulBy01(y.c0,y.c1)); o.F6(x.mulBy1(y.c1)); o.F6(x.mulByBaseField(y.c0)); o.b(x.equal(y)); END
OP(fp6_inv) o.F6(f6(a,0).inverse()); END
OP(fp12_mul) fp12 x = f12(a,0), y = f12(a,1); fp12 r = x; if(a.i(0)) r.multiplyAssign(r); else r.multiplyAssign(y); o.F12(x.multiply(y)); o.F12(r); END
OP(fp12_sqr) fp12 x = f12(a,0); fp12 r = x; r.squareAssign(); o.F12(x.square()); o.F12(r); END
OP(fp12_misc) fp12 x = f12(a,0), y = f12(a,1); o.F12(x.add(y)); o.F12(x.subtract(y)); o.F12(x.dbl()); o.F12(x.negate()); o.F12(x.conjugate()); o.F12(x.cyclotomicSquare()); fp12 r = x; r.mulBy014Assign(y.c0.c0, y.c0.c1, y.c1.c1); o.F12(r); o.b(x.equal(y)); END
OP(fp12_inv) o.F12(f12(a,0).inverse()); END
OP(fp12_frob) uint64_t k = a.i(0); fp12 x = f12(a,0); x.frobeniusMapAssign(k); o.F12(x); END
OP(final_exp) fp12 x = f12(a,0); pairing::final_exponentiation(x); o.F12(x); END
OP(gt_valid) o.b(f12(a,0).isGtValid()); END
// ---- encodings of field elements (message 0), i0 check flag
OP(fp_fromBE) auto r = fp::fromBytesBE(fix<48>(a), co(a)); if(r) o.L(*r); else o.none(); END
OP(fp_fromLE) auto r = fp::fromBytesLE(fix<48>(a), co(a)); if(r) o.L(*r); else o.none(); END
OP(fp_toBytes) o.Y(F1(a,0).toBytesBE(fmo(a))); o.Y(F1(a,0).toBytesLE(fmo(a))); END
OP(fp2_toBytes) o.Y(f2(a,0).toBytesBE(fmo(a))); o.Y(f2(a,0).toBytesLE(fmo(a))); END
OP(fp6_toBytes) o.Y(f6(a,0).toBytesBE(fmo(a))); o.Y(f6(a,0).toBytesLE(fmo(a))); END
OP(fp12_toBytes) o.Y(f12(a,0).toBytesBE(fmo(a))); o.Y(f12(a,0).toBytesLE(fmo(a))); END
OP(fp2_fromBE) auto r = fp2::fromBytesBE(fix<96>(a), co(a)); if(r) { o.F2(*r); o.Y(r->toBytesBE(fmi(a))); } else o.none(); END
OP(fp2_fromLE) auto r = fp2::fromBytesLE(fix<96>(a), co(a)); if(r) { o.F2(*r); o.Y(r->toBytesLE(fmi(a))); } else o.none(); END
OP(fp6_fromBE) auto r = fp6::fromBytesBE(fix<288>(a), co(a)); if(r) { o.F6(*r); o.Y(r->toBytesBE(fmi(a))); } else o.none(); END
OP(fp6_fromLE) auto r = fp6::fromBytesLE(fix<288>(a), co(a)); if(r) { o.F6(*r); o.Y(r->toBytesLE(fmi(a))); } else o.none(); END
OP(fp12_fromBE) auto r = fp12::fromBytesBE(fix<576>(a), co(a)); if(r) { o.F12(*r); o.Y(r->toBytesBE(fmi(a))); } else o.none(); END
OP(fp12_fromLE) auto r = fp12::fromBytesLE(fix<576>(a), co(a)); if(r) { o.F12(*r); o.Y(r->toBytesLE(fmi(a))); } else o.none(); END
// ---- scalars and hex
OP(scalar_bytes) o.Y(scalar::toBytesBE<4>(S(a,0))); o.Y(scalar::toBytesLE<4>(S(a,0))); auto m = M(a,0); if(m.size() == 32) { o.S(scalar::fromBytesBE<4>(span<const uint8_t,32>(m.data(), 32))); o.S(scalar::fromBytesLE<4>(span<const uint8_t,32>(m.data(), 32))); } END
// results go to memory that holds whatever it held before
OP(bn_div) array<uint64_t,8> k{}; std::unique_ptr<array<uint64_t,8>> qp(new array<uint64_t,8>); std::unique_ptr<sc_t> rp(new sc_t), q4p(new sc_t); auto& q = *qp; auto& r = *rp; auto& q4 = *q4p; for(int i = 0; i < 4; i++) { k[i] = S(a,0)[i]; k[i+4] = S(a,1)[i]; } bn_divn_safe(q, r, k, S(a,2)); o.S(r); o.Y(q.data(), 64);
    bn_divn_safe(q4, r, S(a,0), S(a,2)); o.S(r); o.S(q4); END
OP(bytesToHex) string s = bytesToHex(M(a,0)); o.Y(s.data(), s.size()); END
OP(hexToBytes) auto m = M(a,0); auto v = hexToBytes(std::string_view((const char*)m.data(), m.size())); o.Y(v.data(), v.size()); END
OP(scalar_math) const sc_t& x = S(a,0); const sc_t& y = S(a,1); auto z = scalar::multiply<9>(x, y); o.Y(z.data(), 72); auto w = scalar::add<6>(x, array<uint64_t,3>{y[0], y[1], y[2]}); o.Y(w.data(), 48); o.b(scalar::equal(x, y)); auto c = scalar::cmp(x, y); o.b(c < 0 ? 0 : c > 0 ? 2 : 1); o.b((int)(scalar::bitLength(x) & 0xff)); o.b((int)(scalar::bitLength(x) >> 8)); sc_t v{}; scalar::rsh<4>(v, x, a.i(0) & 255); o.S(v); END
OP(words) uint64_t x = a.i(0), y = a.i(1), z = a.i(2) , t = a.i(3), e = a.i(4); auto put = [&](const auto& tp) { std::apply([&](auto... v) { uint64_t q[] = {v...}; o.Y(q, sizeof q); }, tp); };
    put(Add64(x, y, z & 1)); put(Sub64(x, y, z & 1)); put(Mul64(x, y)); put(madd(x, y, z, t, e)); uint64_t m0 = madd0(x, y, z); o.Y(&m0, 8); put(madd1(x, y, z)); put(madd2(x, y, z, t)); put(madd3(x, y, z, t, e)); put(madd2s(x, y, z, t, e)); put(madd1s(x, y, z, t)); put(madd2sb(x, y, z, t)); put(madd1sb(x, y, z)); END
OP(constants) o.P(g1::one()); o.P(g1::zero()); o.P(g1::BASE); o.Q(g2::one()); o.Q(g2::zero()); o.Q(g2::BASE); o.L(fp::one()); o.L(fp::zero()); o.L(fp::MODULUS); o.L(fp::R1); o.L(fp::R2); o.L(fp::B); o.L(fp::twoInv); o.L(fp::glvPhi1); o.F2(fp2::one()); o.F2(fp2::zero()); o.F2(fp2::B); o.F2(fp2::negativeOne2); o.F2(fp2::psiX); o.F2(fp2::psiY); o.F6(fp6::one()); o.F6(fp6::zero()); o.F12(fp12::one()); o.F12(fp12::zero());
    for(auto& c : fp6::frobeniusCoeffs61) o.F2(c); for(auto& c : fp6::frobeniusCoeffs62) o.F2(c); for(auto& c : fp12::frobeniusCoeffs12) o.F2(c); o.S(fp::Q); o.Y(&fp::INP, 8); o.Y(fp::pPlus1Over4.data(), 48); o.Y(fp::pMinus1Over2.data(), 48); o.Y(fp::pMinus3Over4.data(), 48); o.Y(CIPHERSUITE_ID.data(), CIPHERSUITE_ID.size()); o.Y(POP_CIPHERSUITE_ID.data(), POP_CIPHERSUITE_ID.size()); o.Y(g1::cofactorEFF.data(), 8); o.Y(g2::cofactorEFF.data(), 8); END
OP(compare) o.b(F1(a,0) == F1(a,1)); o.b(F1(a,0) < F1(a,1)); o.b(f2(a,0) == f2(a,1)); o.b(f2(a,0) < f2(a,1)); o.b(P(a,0) == P(a,1)); o.b(P(a,0) < P(a,1)); o.b(Q(a,0) == Q(a,1)); o.b(Q(a,0) < Q(a,1)); o.b(f6(a,0).equal(f6(a,1))); o.b(f12(a,0).equal(f12(a,0))); END
OP(g1_swu) auto t = g1::swuMapG1(F1(a,0)); fp x = std::get<0>(t), y = std::get<1>(t); o.L(x); o.L(y); g1::isogenyMapG1(x, y); o.L(x); o.L(y); END
OP(g2_swu) auto t = g2::swuMapG2(f2(a,0)); o.F2(std::get<0>(t)); o.F2(std::get<1>(t)); o.Q(g2({std::get<0>(t), std::get<1>(t), fp2::one()}).isogenyMap()); END
OP(fp4_square) auto t = fp12::fp4Square(f2(a,0), f2(a,1)); o.F2(std::get<0>(t)); o.F2(std::get<1>(t)); END
OP(hex48) auto m = M(a,0); auto v = hexToBytes<48>(string((const char*)m.data(), m.size())); o.Y(v); END
};
constexpr int NOPS = sizeof(OPS)/sizeof(OPS[0]);

struct Rd { const uint8_t* p; size_t n; uint32_t u32() { uint32_t v = 0; get(&v, 4); return v; } uint64_t u64() { uint64_t v = 0; get(&v, 8); return v; }
  void get(void* d, size_t k) { if(k > n) throw Bad{}; memcpy(d, p, k); p += k; n -= k; } const uint8_t* at(size_t k) { if(k > n) throw Bad{}; auto r = p; p += k; n -= k; return r; } };

int op_count() { return NOPS; }
const char* op_name(int k) { return k >= 0 && k < NOPS ? OPS[k].name : nullptr; }

void* prepare(int op, const uint8_t* in, size_t len, const BlsHooks* h) {
    if(op < 0 || op >= NOPS) return nullptr;
    auto* a = new Args; a->op = op;
    try {
        Rd r{in, len};
        uint32_t n = r.u32();
        a->p1.reserve(n);
        for(uint32_t i = 0; i < n; i++) { auto p = g1::fromJacobianBytesBE(span<const uint8_t,144>(r.at(144), 144)); if(!p) throw Bad{}; a->p1.push_back(*p); }
        n = r.u32(); a->p2.reserve(n);
        for(uint32_t i = 0; i < n; i++) { auto p = g2::fromJacobianBytesBE(span<const uint8_t,288>(r.at(288), 288)); if(!p) throw Bad{}; a->p2.push_back(*p); }
        n = r.u32(); a->sc.resize(n); for(auto& s : a->sc) r.get(s.data(), 32);
        n = r.u32(); a->f.resize(n); for(auto& s : a->f) r.get(s.d.data(), 48);
        n = r.u32(); a->in.resize(n); for(auto& s : a->in) r.get(&s, 8);
        n = r.u32();
        for(uint32_t i = 0; i < n; i++) {
            uint32_t l = r.u32(); const uint8_t* d = r.at(l);
            Buf b; b.n = l;
            b.p = h && h->guard ? h->guard(h->ctx, l, (int)((i + len) & 1)) : nullptr;
            if(!b.p) { b.p = (uint8_t*)malloc(l ? l : 1); b.own = true; }
            if(l) memcpy(b.p, d, l);
            a->m.push_back(b);
            a->mv.emplace_back(d, d + l);
        }
    } catch(Bad&) { delete a; return nullptr; }
    if(!strcmp(OPS[op].name, "pairing_raw")) for(size_t i = 0; i < a->p1.size() && i < a->p2.size(); i++) pairing::add_pair(a->pairs, a->p1[i], a->p2[i]);
    a->snapshot(a->snap);
    return a;
}
int exec(void* v, const BlsHooks* hooks, uint8_t* out, size_t cap, size_t* outlen) {
    static const BlsHooks none{};
    const BlsHooks& h = hooks ? *hooks : none;
    Args& a = *(Args*)v;
    Out o{out, cap};
    int st = BLS_OK;
    if(h.begin) h.begin(h.ctx);
    try { OPS[a.op].fn(a, h, o); }
    catch(Bad&) { st = BLS_REJECTED_INPUT; }
    catch(CancelToken&) { if(h.caught) h.caught(h.ctx); st = BLS_FOREIGN_EXC; }
    catch(std::bad_alloc&) { st = BLS_BAD_ALLOC; if(h.caught) h.caught(h.ctx); }
    catch(std::exception&) { st = BLS_STD_EXC; if(h.caught) h.caught(h.ctx); }
    catch(...) { st = BLS_FOREIGN_EXC; if(h.caught) h.caught(h.ctx); }
    if(h.end) h.end(h.ctx);
    if(st != BLS_OK) o.n = 0;
    *outlen = o.n;
    return st;
}
int intact(void* v) { Args& a = *(Args*)v; vector<uint8_t> s; a.snapshot(s); 
    return s == a.snap; }
void destroy(void* v) { delete (Args*)v; }
const BlsHostApi API = { op_count, op_name, prepare, exec, intact, destroy };
}
extern "C" __attribute__((visibility("default"))) const BlsHostApi* bls_host_api() { return &API; }
