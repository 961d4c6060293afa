// Discrete-event network and node helpers shared by the distributed simulations.
#pragma once
#include "core.hpp"
#include <queue>
#include <optional>
struct Sim {                                     // total order (time, sequence): one plan is one execution
    struct Ev { u64 t, seq; std::function<void()> f; bool operator<(const Ev& o) const { return t != o.t ? t > o.t : seq > o.seq; } };
    std::priority_queue<Ev> q; u64 now = 0, seq = 0; size_t steps = 0;
    void at(u64 t, std::function<void()> f) { q.push({t < now ? now : t, seq++, std::move(f)}); }
    void run(Report& r) { while(!q.empty()) { Ev e = q.top(); q.pop(); now = e.t; steps++; e.f(); } r.add("sim_ms", now); r.add("events", steps); }
};
enum Enc { COMP = 0, AFFBE, AFFLE, JACBE, JACLE, NENC };
inline const char* encName(int e) { static const char* n[] = {"compressed", "affineBE", "affineLE", "jacobianBE", "jacobianLE"}; return n[e % NENC]; }
inline str encOp(int g, int e) { static const char* n[] = {"Compressed", "AffineBE", "AffineLE", "JacobianBE", "JacobianLE"}; return str(g == 1 ? "g1_to" : "g2_to") + n[e % NENC]; }
inline str decOp(int g, int e) { static const char* n[] = {"Compressed", "AffineBE", "AffineLE", "JacobianBE", "JacobianLE"}; return str(g == 1 ? "g1_from" : "g2_from") + n[e % NENC]; }
template<class F> Bytes leOf(const Bytes& b) { return ref::swapends(b, ref::FS<F>()); }
template<class F> Bytes refEnc(const ref::Pt<F>& p, int e) { switch(e % NENC) { case COMP: return ref::compressed(p); case AFFBE: return ref::affbe(p); case AFFLE: return leOf<F>(ref::affbe(p)); case JACBE: return ref::jacbe(p); default: return leOf<F>(ref::jacbe(p)); } }
template<class F> std::optional<ref::Pt<F>> refDec(const Bytes& b, int e, bool check) {
    switch(e % NENC) { case COMP: return ref::decompress<F>(b); case AFFBE: return ref::fromaff<F>(b, check); case AFFLE: return ref::fromaff<F>(leOf<F>(b), check); case JACBE: return ref::fromjac<F>(b, check); default: return ref::fromjac<F>(leOf<F>(b), check); } }
inline size_t encSize(int g, int e) { size_t c = g == 1 ? 48 : 96; return e % NENC == COMP ? c : e % NENC <= AFFLE ? 2*c : 3*c; }
// library encode/decode on a given node
inline Bytes libEnc(const Host& h, Report& r, int g, const Bytes& jac, int e) { AB a; (g == 1 ? a.p1 : a.p2).push_back(jac); Res s = call(h, encOp(g, e), a); r.add("lib_calls"); if(!s.ok() || s.v().size() != 1) r.fail("encode-failed", h.name + " " + encOp(g, e) + " " + s.canon().substr(0, 100)); return s.bytes(); }
inline std::optional<Bytes> libDec(const Host& h, Report& r, int g, const Bytes& b, int e, bool check) {
    if(b.size() != encSize(g, e)) return {};
    AB a; a.M(b).I(check); BlsHooks hk{}; hk.guard = guardAlloc; Res s = call(h, decOp(g, e), a, &hk); r.add("lib_calls");
    if(!s.ok()) r.fail("decode-failed", h.name + " " + decOp(g, e) + " " + s.canon()); if(s.none()) return {}; return s.bytes(); }
inline const Host& hostAt(u64 i) { return hosts[i % hosts.size()]; }
inline const G2& hashOf(const Bytes& m, const char* dst) { static std::map<str,G2> c; str k = dst + str(m.begin(), m.end()); auto i = c.find(k); if(i == c.end()) i = c.emplace(k, ref::hash2(m, ref::str(dst)).norm()).first; return i->second; }
inline G1 off1(Rng& r, const G1& p) { G1 q = p.inf() ? ref::gen1() : p.norm(); if(r.p(.5)) q.y = q.y + Fp::of(1 + r.below(5)); else q.x = q.x + Fp::of(1 + r.below(5)); return q; }
inline G2 off2(Rng& r, const G2& p) { G2 q = p.inf() ? ref::gen2() : p.norm(); switch(r.below(4)) { case 0: q.y.a = q.y.a + Fp::of(1 + r.below(5)); break; case 1: q.y.b = q.y.b + Fp::of(1 + r.below(5)); break; case 2: q.x.a = q.x.a + Fp::of(1 + r.below(5)); break; default: q.x.b = q.x.b + Fp::of(1 + r.below(5)); } return q; }
// message content by number: few contents collide on purpose
inline Bytes msgOf(u64 n) { if(n % 7 == 0) return pool().msg[n / 7 % Pool::NM]; Rng r(n, 77); if(n % 50 == 13) { int k = r.p(.2) ? r.range(19, 22) : r.range(9, 18); return r.bytes((1ull << k) + r.below(21) - 10); } Bytes b = randMsg(r, 300);
    if(r.p(.4)) { static const uint8_t e[] = {0, 0x80, 0x20, 0x0a, 0xff, 1, '0', '='}; if(r.p(.6)) b.resize((b.size() + 15) / 16 * 16 * (r.p(.3) ? 4 : 1)); size_t k = b.size() ? 1 + r.below(r.p(.6) ? 3 : b.size()) : 0; if(k > b.size()) k = b.size(); uint8_t c = e[r.below(8)]; bool head = r.p(.3); for(size_t i = 0; i < k; i++) b[head ? i : b.size() - 1 - i] = c; if(r.p(.2) && k > 1 && !head) for(size_t i = 1; i < k; i++) b[b.size() - i] = 0; if(r.p(.15) && !head && k) b.back() = k; }   // ends as texts and padded blocks do
    return b; }   // a few are long
