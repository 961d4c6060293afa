// Small executable reference model, written from the standards (RFC 9380, RFC 5869, EIP-2333, the zcash encoding)
// and sharing no code with the library: textbook formulas, schoolbook bit-by-bit scalars, no endomorphisms.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <optional>
namespace ref {
typedef uint64_t u64; typedef unsigned __int128 u128; typedef std::vector<uint8_t> Bytes;
// ---------------------------------------------------------------- sha256 / hmac / hkdf
struct Sha {
    uint32_t h[8]; uint8_t b[64]; u64 n = 0;
    static uint32_t rr(uint32_t x, int k) { return x >> k | x << (32 - k); }
    Sha() { static const uint32_t i[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}; memcpy(h, i, 32); }
    void blk(const uint8_t* p) {
        static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
        uint32_t w[64]; for(int i = 0; i < 16; i++) w[i] = p[4*i] << 24 | p[4*i+1] << 16 | p[4*i+2] << 8 | p[4*i+3];
        for(int i = 16; i < 64; i++) w[i] = w[i-16] + (rr(w[i-15],7) ^ rr(w[i-15],18) ^ w[i-15] >> 3) + w[i-7] + (rr(w[i-2],17) ^ rr(w[i-2],19) ^ w[i-2] >> 10);
        uint32_t a=h[0],bb=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
        for(int i = 0; i < 64; i++) {
            uint32_t t1 = hh + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i], t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&bb)^(a&c)^(bb&c));
            hh=g; g=f; f=e; e=d+t1; d=c; c=bb; bb=a; a=t1+t2; }
        h[0]+=a;h[1]+=bb;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=hh; }
    Sha& up(const uint8_t* p, size_t k) { for(size_t i = 0; i < k; i++) { b[n++ & 63] = p[i]; if(!(n & 63)) blk(b); } return *this; }
    Sha& up(const Bytes& v) { return up(v.data(), v.size()); }
    Bytes fin() { u64 bits = n * 8; uint8_t x = 0x80; up(&x, 1); x = 0; while((n & 63) != 56) up(&x, 1); uint8_t l[8]; for(int i = 0; i < 8; i++) l[i] = bits >> (56 - 8*i); up(l, 8);
        Bytes o(32); for(int i = 0; i < 32; i++) o[i] = h[i/4] >> (24 - 8*(i%4)); return o; }
};
inline Bytes cat(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Bytes str(const char* s) { return Bytes(s, s + strlen(s)); }
inline Bytes sha(const Bytes& b) { return Sha().up(b).fin(); }
inline Bytes hmac(const Bytes& key, const Bytes& in) {
    Bytes k = key.size() > 64 ? sha(key) : key; k.resize(64); Bytes i(64), o(64); for(int j = 0; j < 64; j++) { i[j] = k[j] ^ 0x36; o[j] = k[j] ^ 0x5c; }
    return sha(cat(o, sha(cat(i, in)))); }
inline Bytes expand(const Bytes& prk, const Bytes& info, size_t L) {
    Bytes T, out; for(int i = 1; out.size() < L; i++) { T = hmac(prk, cat(cat(T, info), Bytes{(uint8_t)i})); out = cat(out, T); } out.resize(L); return out; }
// ---------------------------------------------------------------- scalars (4 limbs, little endian)
typedef std::array<u64,4> Sc;
static const Sc Rr = {0xffffffff00000001ull, 0x53bda402fffe5bfeull, 0x3339d80809a1d805ull, 0x73eda753299d7d48ull};
template<size_t N> int cmp(const std::array<u64,N>& a, const std::array<u64,N>& b) { for(int i = N-1; i >= 0; i--) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
template<size_t N> u64 addto(std::array<u64,N>& a, const std::array<u64,N>& b) { u64 c = 0; for(size_t i = 0; i < N; i++) { u128 t = (u128)a[i] + b[i] + c; a[i] = (u64)t; c = t >> 64; } return c; }
template<size_t N> u64 subto(std::array<u64,N>& a, const std::array<u64,N>& b) { u64 c = 0; for(size_t i = 0; i < N; i++) { u128 t = (u128)a[i] - b[i] - c; a[i] = (u64)t; c = (u64)(t >> 64) & 1; } return c; }
inline Sc addr(Sc a, const Sc& b) { u64 c = addto(a, b); if(c || cmp(a, Rr) >= 0) subto(a, Rr); return a; }   // a,b < r
inline Sc subr(Sc a, const Sc& b) { if(cmp(a, b) < 0) addto(a, Rr); subto(a, b); return a; }   // a,b < r
inline Sc modr(const Bytes& be) { Sc a{}; for(uint8_t by : be) for(int k = 7; k >= 0; k--) { a = addr(a, a); if(by >> k & 1) a = addr(a, Sc{1}); } return a; }
inline Bytes be32(const Sc& s) { Bytes o(32); for(int i = 0; i < 32; i++) o[31-i] = s[i/8] >> (8*(i%8)); return o; }
inline Sc frombe32(const uint8_t* p) { Sc s{}; for(int i = 0; i < 32; i++) s[i/8] |= (u64)p[31-i] << (8*(i%8)); return s; }
inline Sc modr(const Sc& s) { return modr(be32(s)); }
inline Sc mulr(const Sc& a, const Sc& b) { Sc x = modr(a), y = modr(b), r{}; for(int i = 255; i >= 0; i--) { r = addr(r, r); if(y[i/64] >> (i%64) & 1) r = addr(r, x); } return r; }
inline Sc negr(const Sc& a) { Sc z = modr(a); if(z == Sc{}) return z; Sc r = Rr; subto(r, z); return r; }
// ---------------------------------------------------------------- Fp
typedef std::array<u64,6> L6;
static constexpr L6 PP = {0xb9feffffffffaaabull, 0x1eabfffeb153ffffull, 0x6730d2a0f6b0f624ull, 0x64774b84f38512bfull, 0x4b1ba7b6434bacd7ull, 0x1a0111ea397fe69aull};
struct Fp {
    L6 d{};   // Montgomery, R = 2^384
    static constexpr u64 INV = 0x89f3fffcfffcfffdull;
    static Fp mulraw(const Fp& a, const Fp& b) {
        u64 t[7] = {};
        #pragma GCC unroll 6
        for(int i = 0; i < 6; i++) { u64 c = 0, y = b.d[i]; u128 v;
            #pragma GCC unroll 6
            for(int j = 0; j < 6; j++) { v = (u128)a.d[j]*y + t[j] + c; t[j] = (u64)v; c = v >> 64; }
            t[6] += c;                                                                   // below 2^382 each: no carry out of t[6]
            u64 m = t[0]*INV; v = (u128)m*PP[0] + t[0]; c = v >> 64;
            #pragma GCC unroll 5
            for(int j = 1; j < 6; j++) { v = (u128)m*PP[j] + t[j] + c; t[j-1] = (u64)v; c = v >> 64; }
            v = (u128)t[6] + c; t[5] = (u64)v; t[6] = v >> 64; }
        Fp r; for(int i = 0; i < 6; i++) r.d[i] = t[i]; if(t[6] || cmp(r.d, PP) >= 0) subto(r.d, PP); return r; }
    static const Fp& R2() { static Fp v = [] { Fp x; x.d = {1}; for(int i = 0; i < 768; i++) { u64 c = addto(x.d, x.d); if(c || cmp(x.d, PP) >= 0) subto(x.d, PP); } return x; }(); return v; }
    static Fp plain(const L6& v) { Fp x; x.d = v; return mulraw(x, R2()); }
    static Fp of(u64 v) { return plain(L6{v}); }
    L6 canon() const { Fp o; o.d = {1}; return mulraw(*this, o).d; }
    friend Fp operator*(const Fp& a, const Fp& b) { return mulraw(a, b); }
    friend Fp operator+(const Fp& a, const Fp& b) { Fp s, t; u64 c = 0, w = 0;
        #pragma GCC unroll 6
        for(int i = 0; i < 6; i++) { u128 v = (u128)a.d[i] + b.d[i] + c; s.d[i] = (u64)v; c = v >> 64; v = (u128)s.d[i] - PP[i] - w; t.d[i] = (u64)v; w = (u64)(v >> 64) & 1; }
        u64 k = 0 - (u64)(c < w); for(int i = 0; i < 6; i++) s.d[i] = (s.d[i] & k) | (t.d[i] & ~k); return s; }
    friend Fp operator-(const Fp& a, const Fp& b) { Fp s; u64 w = 0, c = 0;
        #pragma GCC unroll 6
        for(int i = 0; i < 6; i++) { u128 v = (u128)a.d[i] - b.d[i] - w; s.d[i] = (u64)v; w = (u64)(v >> 64) & 1; }
        u64 k = 0 - w; for(int i = 0; i < 6; i++) { u128 v = (u128)s.d[i] + (PP[i] & k) + c; s.d[i] = (u64)v; c = v >> 64; } return s; }
    Fp neg() const { return Fp{} - *this; }
    bool operator==(const Fp& o) const { return d == o.d; }
    bool isz() const { return d == L6{}; }
    static Fp one() { return of(1); }
    Fp pow(const L6& e) const { Fp r = one(); for(int i = 383; i >= 0; i--) { r = r*r; if(e[i/64] >> (i%64) & 1) r = r * *this; } return r; }
    Fp inv() const { L6 e = PP; subto(e, L6{2}); return pow(e); }
    static L6 shr(L6 a, int k) { for(int i = 0; i < k; i++) for(int j = 0; j < 6; j++) a[j] = a[j] >> 1 | (j < 5 ? a[j+1] << 63 : 0); return a; }
    bool issq() const { L6 e = PP; subto(e, L6{1}); Fp t = pow(shr(e, 1)); return t.isz() || t == one(); }
    bool sqrt(Fp& o) const { L6 e = PP; addto(e, L6{1}); o = pow(shr(e, 2)); return o*o == *this; }
    int sgn() const { return canon()[0] & 1; }
    int cmpneg() const { return cmp(canon(), neg().canon()); }           // >0: lexicographically largest
    void be(uint8_t* p) const { L6 c = canon(); for(int i = 0; i < 48; i++) p[47-i] = c[i/8] >> (8*(i%8)); }
    static bool parse(const uint8_t* p, Fp& o, uint8_t mask = 0xff) { L6 v{}; for(int i = 0; i < 48; i++) { uint8_t x = p[47-i]; if(i == 47) x &= mask; v[i/8] |= (u64)x << (8*(i%8)); } if(cmp(v, PP) >= 0) return false; o = plain(v); return true; }
    static Fp hex(const char* s) { L6 v{}; for(; *s; s++) { int n = *s <= '9' ? *s - '0' : (*s | 32) - 'a' + 10; for(int j = 5; j >= 0; j--) v[j] = v[j] << 4 | (j ? v[j-1] >> 60 : 0); v[0] |= n; } return plain(v); }
    static Fp wide(const uint8_t* p, int n) { Fp r, b = of(256); for(int i = 0; i < n; i++) r = r*b + of(p[i]); return r; }
};
struct Fp2 {
    Fp a, b;  // a + b u
    friend Fp2 operator*(const Fp2& x, const Fp2& y) { if(&x == &y) { Fp m = x.a*x.b; return {(x.a + x.b)*(x.a - x.b), m + m}; } Fp s = x.a*y.a, t = x.b*y.b; return {s - t, (x.a + x.b)*(y.a + y.b) - s - t}; }
    friend Fp2 operator+(const Fp2& x, const Fp2& y) { return {x.a+y.a, x.b+y.b}; }
    friend Fp2 operator-(const Fp2& x, const Fp2& y) { return {x.a-y.a, x.b-y.b}; }
    Fp2 neg() const { return {a.neg(), b.neg()}; }
    bool operator==(const Fp2& o) const { return a == o.a && b == o.b; }
    bool isz() const { return a.isz() && b.isz(); }
    static Fp2 one() { return {Fp::one(), Fp{}}; }
    static Fp2 of(u64 v) { return {Fp::of(v), Fp{}}; }
    Fp2 inv() const { Fp n = (a*a + b*b).inv(); return {a*n, (b*n).neg()}; }
    bool sqrt(Fp2& o) const {
        if(b.isz()) { Fp t; if(a.sqrt(t)) { o = {t, Fp{}}; return true; } if(a.neg().sqrt(t)) { o = {Fp{}, t}; return true; } return false; }
        Fp n; if(!(a*a + b*b).sqrt(n)) return false;
        Fp h = Fp::of(2).inv(), t = (a + n)*h, x; if(!t.sqrt(x)) { t = (a - n)*h; if(!t.sqrt(x)) return false; }
        o = {x, b*h*x.inv()}; return o*o == *this; }
    int sgn() const { return a.isz() ? b.sgn() : a.sgn(); }               // RFC 9380 sgn0, m = 2
    int cmpneg() const { int c = b.isz() ? 0 : b.cmpneg(); return c ? c : a.isz() ? 0 : a.cmpneg(); }
};
inline const Fp& curveB(const Fp*) { static Fp v = Fp::of(4); return v; }
inline const Fp2& curveB(const Fp2*) { static Fp2 v{Fp::of(4), Fp::of(4)}; return v; }
// ---------------------------------------------------------------- points, textbook Jacobian
template<class F> struct Pt {
    F x{}, y = F::one(), z{};
    bool inf() const { return z.isz(); }
    static Pt aff(const F& x, const F& y) { return {x, y, F::one()}; }
    Pt dbl() const { if(inf() || y.isz()) return {}; F yy = y*y, s = x*yy, m = x*x; s = s+s; s = s+s; m = m+m+m; F X = m*m - s - s, q = yy*yy; q = q+q; q = q+q; q = q+q; F Z = y*z; return {X, m*(s - X) - q, Z + Z}; }
    friend Pt operator+(const Pt& p, const Pt& q) {
        if(p.inf()) return q; if(q.inf()) return p;
        F a = p.z*p.z, b = q.z*q.z, u1 = p.x*b, u2 = q.x*a, s1 = p.y*b*q.z, s2 = q.y*a*p.z;
        if(u1 == u2) { if(s1 == s2) return p.dbl(); return {}; }
        F h = u2 - u1, r = s2 - s1, hh = h*h, hhh = hh*h, v = u1*hh, X = r*r - hhh - v - v; return {X, r*(v - X) - s1*hhh, p.z*q.z*h}; }
    Pt neg() const { return {x, y.neg(), z}; }
    Pt norm() const { if(inf()) return {}; F i = z.inv(), i2 = i*i; return {x*i2, y*i2*i, F::one()}; }
    template<size_t N> Pt mul(const std::array<u64,N>& e) const { Pt r, t[16]; t[1] = *this; for(int i = 2; i < 16; i++) t[i] = t[i-1] + *this; bool on = false; for(int i = 16*N-1; i >= 0; i--) { if(on) r = r.dbl().dbl().dbl().dbl(); int w = e[i/16] >> (i%16*4) & 15; if(w) { r = r + t[w]; on = true; } } return r; }   // four bits at a time
    bool eq(const Pt& o) const { if(inf() || o.inf()) return inf() && o.inf(); F a = z*z, b = o.z*o.z; return x*b == o.x*a && y*b*o.z == o.y*a*z; }
    bool oncurve() const { if(inf()) return true; F z2 = z*z, z6 = z2*z2*z2; return y*y == x*x*x + curveB((F*)0)*z6; }
    bool subgroup() const { return mul(Rr).inf(); }
    Pt rerep(const F& l) const { if(inf()) return *this; F l2 = l*l; return {x*l2, y*l2*l, z*l}; }   // same point, other representation
};
typedef Pt<Fp> G1; typedef Pt<Fp2> G2;
inline const G1& gen1() { static G1 g = G1::aff(Fp::hex("17F1D3A73197D7942695638C4FA9AC0FC3688C4F9774B905A14E3A3F171BAC586C55E83FF97A1AEFFB3AF00ADB22C6BB"), Fp::hex("08B3F481E3AAA0F1A09E30ED741D8AE4FCF5E095D5D00AF600DB18CB2C04B3EDD03CC744A2888AE40CAA232946C5E7E1")); return g; }
inline const G2& gen2() { static G2 g = G2::aff({Fp::hex("024AA2B2F08F0A91260805272DC51051C6E47AD4FA403B02B4510B647AE3D1770BAC0326A805BBEFD48056C8C121BDB8"), Fp::hex("13E02B6052719F607DACD3A088274F65596BD0D09920B61AB5DA61BBDC7F5049334CF11213945D57E5AC7D055D042B7E")},
    {Fp::hex("0CE5D527727D6E118CC9CDC6DA2E351AADFD9BAA8CBDD3A76D429A695160D12C923AC9CC3BACA289E193548608B82801"), Fp::hex("0606C4A02EA734CC32ACD2B02BC28B99CB3E287E85A763AF267492AB572E99AB3F370D275CEC1DA1AAA9075FF05F79BE")}); return g; }
// ---------------------------------------------------------------- encodings
inline void put(Bytes& o, const Fp& f) { size_t n = o.size(); o.resize(n+48); f.be(&o[n]); }
inline void put(Bytes& o, const Fp2& f) { put(o, f.b); put(o, f.a); }
template<class F> Bytes affbe(const Pt<F>& p) { Bytes o; if(p.inf()) { o.resize(2*(sizeof(F)==sizeof(Fp)?48:96)); return o; } auto n = p.norm(); put(o, n.x); put(o, n.y); return o; }
template<class F> Bytes jacbe(const Pt<F>& p) { Bytes o; put(o, p.x); put(o, p.y); put(o, p.z); return o; }
// little endian: limbs low first and, for Fp2, low coefficient first; coordinates stay in order x, y(, z)
inline Bytes rev(const uint8_t* p, size_t n) { Bytes o(n); for(size_t i = 0; i < n; i++) o[i] = p[n-1-i]; return o; }
inline Bytes swapends(const Bytes& b, size_t coord) { Bytes o; for(size_t i = 0; i + coord <= b.size(); i += coord) o = cat(o, rev(&b[i], coord)); return o; }
template<class F> Bytes compressed(const Pt<F>& p) { size_t n = sizeof(F)==sizeof(Fp)?48:96; Bytes o; if(p.inf()) { o.resize(n); o[0] = 0xC0; return o; } auto q = p.norm(); put(o, q.x); o[0] |= 0x80 | (q.y.cmpneg() > 0 ? 0x20 : 0); return o; }
inline bool rdF(const uint8_t* p, Fp& f, uint8_t m = 0xff) { return Fp::parse(p, f, m); }
inline bool rdF(const uint8_t* p, Fp2& f, uint8_t m = 0xff) { return Fp::parse(p, f.b, m) && Fp::parse(p+48, f.a); }
template<class F> constexpr size_t FS() { return sizeof(F)/sizeof(Fp)*48; }
template<class F> std::optional<Pt<F>> decompress(const Bytes& b) {
    if(b.size() != FS<F>() || !(b[0] & 0x80)) return {};
    if(b[0] & 0x40) { if(b[0] != 0xC0) return {}; for(size_t i = 1; i < b.size(); i++) if(b[i]) return {}; return Pt<F>{}; }
    F x, y; if(!rdF(b.data(), x, 0x1f)) return {};
    if(!(x*x*x + curveB((F*)0)).sqrt(y)) return {};
    if((y.cmpneg() > 0) != ((b[0] & 0x20) != 0)) y = y.neg();
    return Pt<F>::aff(x, y); }
template<class F> std::optional<Pt<F>> fromaff(const Bytes& b, bool check) { F x, y; size_t n = FS<F>(); if(b.size() != 2*n || !rdF(&b[0], x) || !rdF(&b[n], y)) return {}; if(x.isz() && y.isz()) return Pt<F>{}; auto p = Pt<F>::aff(x, y); if(check && !p.oncurve()) return {}; return p; }
template<class F> std::optional<Pt<F>> fromjac(const Bytes& b, bool check) { F x, y, z; size_t n = FS<F>(); if(b.size() != 3*n || !rdF(&b[0], x) || !rdF(&b[n], y) || !rdF(&b[2*n], z)) return {}; Pt<F> p{x, y, z}; if(check && !p.oncurve()) return {}; return p; }
// ---------------------------------------------------------------- RFC 9380 hash to G2
inline std::optional<Bytes> xmd(const Bytes& msg, const Bytes& dst, int len) {
    if(len < 0 || (len + 31)/32 > 255 || dst.size() > 255) return {};
    Bytes dp = cat(dst, Bytes{(uint8_t)dst.size()}), b0 = sha(cat(cat(cat(Bytes(64), msg), Bytes{(uint8_t)(len >> 8), (uint8_t)len, 0}), dp)), bi(32), out;
    for(int i = 1; i <= (len + 31)/32; i++) { for(int j = 0; j < 32; j++) bi[j] ^= b0[j]; bi = sha(cat(cat(bi, Bytes{(uint8_t)i}), dp)); out = cat(out, bi); }
    out.resize(len); return out; }
inline G2 sswu(const Fp2& u) {
    static const Fp2 A{Fp{}, Fp::of(240)}, B{Fp::of(1012), Fp::of(1012)}, Z{Fp::of(2).neg(), Fp::of(1).neg()};
    Fp2 zu = Z*u*u, t = zu*zu + zu, x1 = t.isz() ? B*(Z*A).inv() : B.neg()*A.inv()*(Fp2::one() + t.inv());
    auto g = [&](const Fp2& x) { return x*x*x + A*x + B; };
    Fp2 x = x1, y; if(!g(x).sqrt(y)) { x = zu*x1; g(x).sqrt(y); }
    if(y.sgn() != u.sgn()) y = y.neg();
    static const Fp K10 = Fp::hex("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6"), K11 = Fp::hex("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71a"),
      K12a = Fp::hex("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71e"), K12b = Fp::hex("8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38d"),
      K13 = Fp::hex("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1"),
      K30 = Fp::hex("1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706"), K31 = Fp::hex("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97be"),
      K32a = Fp::hex("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71c"), K32b = Fp::hex("8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38f"),
      K33 = Fp::hex("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10");
    auto m = [](u64 v) { return Fp::of(v).neg(); };
    Fp2 xn = ((Fp2{K13, Fp{}}*x + Fp2{K12a, K12b})*x + Fp2{Fp{}, K11})*x + Fp2{K10, K10};
    Fp2 xd = (x + Fp2{Fp::of(12), m(12)})*x + Fp2{Fp{}, m(72)};
    Fp2 yn = ((Fp2{K33, Fp{}}*x + Fp2{K32a, K32b})*x + Fp2{Fp{}, K31})*x + Fp2{K30, K30};
    Fp2 yd = ((x + Fp2{Fp::of(18), m(18)})*x + Fp2{Fp{}, m(216)})*x + Fp2{m(432), m(432)};
    if(xd.isz() || yd.isz()) return {};
    return G2::aff(xn*xd.inv(), y*yn*yd.inv()); }
inline G2 clearcof(const G2& p) {
    static const std::array<u64,10> h = {0xe8020005aaa95551ull,0x59894c0adebbf6b4ull,0xe954cbc06689f6a3ull,0x2ec0ec69d7477c1aull,0x6d82bf015d1212b0ull,0x329c2f178731db95ull,0x9986ff031508ffe1ull,0x88e2a8e9145ad768ull,0x584c6a0ea91b3528ull,0x0bc69f08f2ee75b3ull};
    return p.mul(h); }
inline G2 hash2(const Bytes& msg, const Bytes& dst) {
    auto o = xmd(msg, dst, 256); if(!o) return {};
    Fp2 u{Fp::wide(&(*o)[0], 64), Fp::wide(&(*o)[64], 64)}, v{Fp::wide(&(*o)[128], 64), Fp::wide(&(*o)[192], 64)};
    return clearcof(sswu(u) + sswu(v)); }
static const char* const SIG_DST = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_";
static const char* const POP_DST = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
inline Bytes popmsg(const G1& pk) { return swapends(affbe(pk), 48); }
// ---------------------------------------------------------------- EIP-2333 (first-draft salt, as the ciphersuite's reference wallet)
inline Sc keygen(const Bytes& seed) {
    if(seed.size() < 32) return {};
    Bytes salt = str("BLS-SIG-KEYGEN-SALT-"); Sc sk{};
    while(true) { Bytes okm = expand(hmac(salt, cat(seed, Bytes{0})), Bytes{0, 48}, 48); sk = modr(okm); if(sk != Sc{}) return sk; salt = sha(salt); } }
inline Bytes be4(uint32_t i) { return {(uint8_t)(i >> 24), (uint8_t)(i >> 16), (uint8_t)(i >> 8), (uint8_t)i}; }
inline Bytes lamport_sk(const Bytes& ikm, const Bytes& salt) { return expand(hmac(salt, ikm), {}, 255*32); }
inline Bytes lamport_pk(const Sc& sk, uint32_t idx) {
    Bytes ikm = be32(sk), not_ = ikm; for(auto& x : not_) x ^= 0xff;
    Bytes a = lamport_sk(ikm, be4(idx)), b = lamport_sk(not_, be4(idx)), all;
    for(int i = 0; i < 255; i++) all = cat(all, sha(Bytes(&a[32*i], &a[32*i] + 32)));
    Bytes all2; for(int i = 0; i < 255; i++) all2 = cat(all2, sha(Bytes(&b[32*i], &b[32*i] + 32)));
    return sha(cat(all, all2)); }
inline Sc child_hard(const Sc& sk, uint32_t idx) { return keygen(lamport_pk(sk, idx)); }
inline Sc tweak(const Bytes& comp, uint32_t idx) { return modr(sha(cat(comp, be4(idx)))); }
} // namespace ref
