#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include "api.h"
#include "ref.hpp"
using ref::Bytes; using ref::Sc; using ref::L6; using ref::G1; using ref::G2; using ref::Fp; using ref::Fp2;
typedef uint64_t u64; typedef std::string str;
template<class T> using vec = std::vector<T>;

// ------------------------------------------------------------------ randomness: one seed, one execution
inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull; x = (x ^ x >> 27) * 0x94d049bb133111ebull; return x ^ x >> 31; }
struct Rng {
    u64 s;
    explicit Rng(u64 seed, u64 stream = 0) : s(mix(seed ^ mix(stream * 0x51ed2701 + 17))) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull; x = (x ^ x >> 27) * 0x94d049bb133111ebull; return x ^ x >> 31; }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
    bool p(double q) { return (next() >> 11) * 0x1.0p-53 < q; }
    Bytes bytes(size_t n) { Bytes b(n); for(auto& x : b) x = next() >> 32; return b; }
    template<class T> const T& pick(const vec<T>& v) { return v[below(v.size())]; }
    size_t weighted(std::initializer_list<int> w) { int t = 0; for(int x : w) t += x; int r = below(t); size_t i = 0; for(int x : w) { if(r < x) return i; r -= x; i++; } return 0; }
};
inline u64 fnv(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull) { auto b = (const uint8_t*)p; for(size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; return h; }
inline u64 hstr(const str& s, u64 h = 0xcbf29ce484222325ull) { return fnv(s.data(), s.size(), h); }
inline str hex(const Bytes& b) { static const char* d = "0123456789abcdef"; str s; for(auto x : b) { s += d[x >> 4]; s += d[x & 15]; } return s; }
inline str hexn(const uint8_t* p, size_t n) { return hex(Bytes(p, p + n)); }
template<class... A> str fmt(const char* f, A... a) { char b[2048]; snprintf(b, sizeof b, f, a...); return b; }

// ------------------------------------------------------------------ plans: the explicit, minimisable form of a run
// One line per step or fault. Lines starting with '!' are the configuration and never dropped by the minimiser.
typedef vec<str> Plan;
struct Ln {                                     // "verb k=v k=v ..."
    str verb; std::map<str,str> kv;
    explicit Ln(const str& s) { std::istringstream is(s); is >> verb; str t; while(is >> t) { auto e = t.find('='); if(e != str::npos) kv[t.substr(0, e)] = t.substr(e + 1); } }
    u64 n(const char* k, u64 d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtoull(i->second.c_str(), 0, 0); }
    str s(const char* k, const str& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    bool has(const char* k) const { return kv.count(k); }
};

// ------------------------------------------------------------------ reports
struct Violation { str kind, detail; };
struct Report {
    u64 hash = 0xcbf29ce484222325ull;           // over everything observed
    std::map<str,u64> cnt;                      // faults injected, calls made, simulated time...
    vec<u64> states;                            // distinct-state measure of the property
    str vkind, vdetail;
    void see(const void* p, size_t n) { hash = fnv(p, n, hash); }
    void see(const str& s) { see(s.data(), s.size()); }
    void see(u64 v) { see(&v, 8); }
    void add(const str& k, u64 v = 1) { cnt[k] += v; }
    void state(u64 h) { if(states.size() < 4096) states.push_back(h); }
    [[noreturn]] void fail(const str& kind, const str& detail) { throw Violation{kind, detail}; }
};

// ------------------------------------------------------------------ calling a host
struct AB {                                     // argument builder
    vec<Bytes> p1, p2; vec<Sc> sc; vec<L6> f; vec<u64> in; vec<Bytes> m;
    AB& P(const G1& p) { p1.push_back(ref::jacbe(p)); return *this; }
    AB& Q(const G2& p) { p2.push_back(ref::jacbe(p)); return *this; }
    AB& p_(const Bytes& b) { p1.push_back(b); return *this; }
    AB& q_(const Bytes& b) { p2.push_back(b); return *this; }
    AB& S(const Sc& s) { sc.push_back(s); return *this; }
    AB& F(const L6& x) { f.push_back(x); return *this; }
    AB& I(u64 x) { in.push_back(x); return *this; }
    AB& M(const Bytes& b) { m.push_back(b); return *this; }
    Bytes ser() const;
};
struct Val { char tag; Bytes b; };
struct Res {
    int st = 0; Bytes raw; bool intact = true;
    vec<Val> v() const;
    str canon() const;                          // representation independent text of the result
    bool ok() const { return st == 0; }
    bool none(size_t i = 0) const { auto x = v(); return x.size() > i && x[i].tag == 'N'; }
    int boolean(size_t i = 0) const { auto x = v(); return x.size() > i && x[i].tag == 'B' ? x[i].b[0] : -1; }
    Bytes bytes(size_t i = 0) const { auto x = v(); return x.size() > i ? x[i].b : Bytes{}; }
    G1 g1(size_t i = 0) const; G2 g2(size_t i = 0) const; Sc sc(size_t i = 0) const;
};
struct Host {
    str name, path; void* h = nullptr; const BlsHostApi* api = nullptr; std::map<str,int> ops; bool instrumented = false;
    int op(const str& n) const { auto i = ops.find(n); return i == ops.end() ? -1 : i->second; }
};
extern vec<Host> hosts;                          // loaded in the template process, never called there
Host* hostByName(const str& n);
bool loadHost(const str& name, const str& path, Host& out);
Res call(const Host& h, const str& op, const AB& a, const BlsHooks* hooks = nullptr);
Res callSer(const Host& h, int op, const Bytes& ser, const BlsHooks* hooks = nullptr);
str refVal(const G1& p); str refVal(const G2& p); str refVal(const Sc& s); str refB(int b); str refY(const Bytes& b); str refF(const Fp& f);
str refL(const Fp& f);
// Same call in a fresh process image (fork of a child that has never called the library).
void aloneInit();                                // before the first library call of the process
str aloneCall(const Host& h, const str& op, const AB& a, int fill = 0);
uint8_t* guardAlloc(void*, size_t len, int align_end);
void paintStack(int byte);
extern volatile char* progressNote;              // shared with the parent: what the run was doing when it died
void note(const str& s);

// ------------------------------------------------------------------ memory seam (alloc.cpp)
namespace mem {
    struct Ctl {
        bool armed = false;                      // inside a library call of the run
        bool track = false; int fill = -1;
        u64 n = 0;                               // allocation requests seen while armed
        u64 failed = 0;
        u64 maxReq = 0; u64 bytes = 0; u64 peak = 0;   // peak: most bytes held at a time (when tracked)
        const std::set<u64>* failAt = nullptr; u64 failFrom = ~0ull; u64 failBelow = ~0ull;
    };
    extern Ctl ctl;
    extern bool inThreadCall();
    extern void (*onAlloc)(void*, size_t);       // seen outside armed calls (C01)
    u64 liveBlocks(); u64 liveBytes();
    void reset();
}
BlsHooks memHooks(bool guard);                   // arms mem::ctl between begin and end

// ------------------------------------------------------------------ pools with known discrete logarithms
struct Pool {
    static constexpr int N = 96, NM = 30;
    vec<Sc> k; vec<G1> p1; vec<G2> p2;           // p1[i] = k[i]*G1, p2[i] = k[i]*G2
    vec<Bytes> msg; vec<G2> H; vec<vec<G2>> sig; // sig[m][i] = k[i]*H[m]
    vec<G1> pop_; vec<G1> tors1; vec<G2> tors2;  // points of small order outside the prime-order groups
    vec<str> tors1n, tors2n; vec<G2> edge2;         // y on a coordinate axis of Fp2 (ties in the sign rule)
};
const Pool& pool();
Sc randScalar(Rng& r);                           // mixture of random, small, near-order, sparse, unreduced
Sc randSk(Rng& r);                               // 1..r-1
Fp randFp(Rng& r); Fp2 randFp2(Rng& r); L6 randLimbs(Rng& r);   // structured limbs below p
G1 rerep(Rng& r, const G1& p); G2 rerep(Rng& r, const G2& p);   // other Jacobian representation
Bytes randMsg(Rng& r, size_t maxlen = 600);

// ------------------------------------------------------------------ generic operation instances (ops.cpp)
struct OpInst { str name; u64 seed = 0; AB a; };
OpInst makeOp(const str& name, u64 seed, u64 mut = 0);   // deterministic arguments; mut != 0: one of them slightly different
const vec<str>& opNames();                       // all catalogue ops
vec<str> opNamesWhere(const char* klass);        // "alloc", "sig", "cheap", "mid", ...
bool canFailByCode(const str& op, const Res& r); // result is the operation's own way of reporting failure

struct Prop { const char* id; std::function<Plan(u64 seed, bool thorough)> gen; std::function<void(const Plan&, Report&)> exec; vec<str> variants; std::function<void()> warm; };
extern vec<Prop>& props();
struct Reg { Reg(Prop p) { props().push_back(std::move(p)); } };
int cpuAlarmSeconds();
