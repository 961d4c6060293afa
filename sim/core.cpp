#include "core.hpp"
#include <memory>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <alloca.h>
#include <errno.h>
#include <fcntl.h>

vec<Host> hosts;
volatile char* progressNote = nullptr;
void note(const str& s) { if(progressNote) { size_t n = s.size() < 1000 ? s.size() : 1000; memcpy((void*)progressNote, s.data(), n); progressNote[n] = 0; } }
vec<Prop>& props() { static vec<Prop> p; return p; }
Host* hostByName(const str& n) { for(auto& h : hosts) if(h.name == n) return &h; return nullptr; }

bool loadHost(const str& name, const str& path, Host& o) {
    o.name = name; o.path = path;
    o.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if(!o.h) { fprintf(stderr, "dlopen %s: %s\n", path.c_str(), dlerror()); return false; }
    auto f = (const BlsHostApi* (*)())dlsym(o.h, "bls_host_api");
    if(!f) { fprintf(stderr, "no api in %s\n", path.c_str()); return false; }
    o.api = f();
    for(int i = 0; i < o.api->op_count(); i++) o.ops[o.api->op_name(i)] = i;
    return true;
}

// ------------------------------------------------------------------ arguments and results
static void p32(Bytes& o, uint32_t v) { for(int i = 0; i < 4; i++) o.push_back(v >> (8*i)); }
Bytes AB::ser() const {
    Bytes o;
    p32(o, p1.size()); for(auto& p : p1) o.insert(o.end(), p.begin(), p.end());
    p32(o, p2.size()); for(auto& p : p2) o.insert(o.end(), p.begin(), p.end());
    p32(o, sc.size()); for(auto& s : sc) { auto b = (const uint8_t*)s.data(); o.insert(o.end(), b, b + 32); }
    p32(o, f.size()); for(auto& s : f) { auto b = (const uint8_t*)s.data(); o.insert(o.end(), b, b + 48); }
    p32(o, in.size()); for(auto& s : in) { auto b = (const uint8_t*)&s; o.insert(o.end(), b, b + 8); }
    p32(o, m.size()); for(auto& s : m) { p32(o, s.size()); o.insert(o.end(), s.begin(), s.end()); }
    return o;
}
vec<Val> Res::v() const {
    vec<Val> r; size_t i = 0;
    while(i < raw.size()) {
        char t = raw[i++]; size_t n = t == 'P' ? 144 : t == 'Q' ? 288 : t == 'F' || t == 'L' ? 48 : t == 'S' ? 32 : t == 'B' ? 1 : t == 'N' ? 0 : 0;
        if(t == 'Y') { uint32_t l; if(i + 4 > raw.size()) break; memcpy(&l, &raw[i], 4); n = l; i += 4; }
        if(i + n > raw.size()) break;
        r.push_back({t, Bytes(raw.begin() + i, raw.begin() + i + n)}); i += n;
    }
    return r;
}
static G1 toG1(const Bytes& b) { auto p = ref::fromjac<Fp>(b, false); return p ? *p : G1{Fp::of(3), Fp::of(3), Fp::one()}; }
static G2 toG2(const Bytes& b) { auto p = ref::fromjac<Fp2>(b, false); return p ? *p : G2{Fp2::of(3), Fp2::of(3), Fp2::one()}; }
G1 Res::g1(size_t i) const { auto x = v(); return x.size() > i && x[i].tag == 'P' ? toG1(x[i].b) : G1{Fp::of(3), Fp::of(3), Fp::one()}; }
G2 Res::g2(size_t i) const { auto x = v(); return x.size() > i && x[i].tag == 'Q' ? toG2(x[i].b) : G2{Fp2::of(3), Fp2::of(3), Fp2::one()}; }
Sc Res::sc(size_t i) const { auto x = v(); return x.size() > i && x[i].tag == 'S' ? ref::frombe32(x[i].b.data()) : Sc{~0ull, ~0ull, ~0ull, ~0ull}; }
str refVal(const G1& p) { return "P:" + hex(ref::affbe(p)) + ";"; }
str refVal(const G2& p) { return "Q:" + hex(ref::affbe(p)) + ";"; }
str refVal(const Sc& s) { return "S:" + hex(ref::be32(s)) + ";"; }
str refB(int b) { return fmt("B:%02x;", b & 0xff); }
str refY(const Bytes& b) { return "Y:" + hex(b) + ";"; }
str refF(const Fp& f) { Bytes o; ref::put(o, f); return "F:" + hex(o) + ";"; }
str refL(const Fp& f) { return "L:" + hexn((const uint8_t*)f.d.data(), 48) + ";"; }
str Res::canon() const {
    if(st) return fmt("!%d", st);
    bool plain = true; for(auto& x : v()) if(x.tag == 'P' || x.tag == 'Q') plain = false;
    str o;
    if(plain && (raw.empty() || !strchr("BNYFSL", raw[0]))) return "raw:" + hex(raw);
    for(auto& x : v()) {
        if(x.tag == 'P') { auto p = ref::fromjac<Fp>(x.b, false); o += p ? refVal(*p) : "P:unreduced:" + hex(x.b) + ";"; }
        else if(x.tag == 'Q') { auto p = ref::fromjac<Fp2>(x.b, false); o += p ? refVal(*p) : "Q:unreduced:" + hex(x.b) + ";"; }
        else { o += x.tag; o += ':'; o += hex(x.b); o += ';'; }
    }
    return o;
}
Res callSer(const Host& h, int op, const Bytes& ser, const BlsHooks* hooks) {
    Res r; const size_t CAP = 1 << 20;
    struct Pause { bool was = mem::ctl.armed; Pause() { mem::ctl.armed = false; } ~Pause() { mem::ctl.armed = was; } } pause;   // nested calls (from a callback) do their own accounting
    std::unique_ptr<uint8_t[]> outbuf(new uint8_t[CAP]);
    void* a = h.api->prepare(op, ser.data(), ser.size(), hooks);
    if(!a) { r.st = BLS_NO_OP; return r; }
    size_t n = 0;
    r.st = h.api->exec(a, hooks, outbuf.get(), CAP, &n);
    r.raw.assign(outbuf.get(), outbuf.get() + n);
    r.intact = h.api->intact(a);
    h.api->destroy(a);
    return r;
}
Res call(const Host& h, const str& op, const AB& a, const BlsHooks* hooks) {
    int o = h.op(op); if(o < 0) { fprintf(stderr, "unknown op %s\n", op.c_str()); abort(); }
    note("host=" + h.name + " op=" + op);
    return callSer(h, o, a.ser(), hooks);
}
// ------------------------------------------------------------------ guard pages and stack paint
uint8_t* guardAlloc(void*, size_t len, int align_end) {
    static constexpr size_t SZ = 1 << 18; static constexpr int NS = 8;
    static uint8_t* slot[NS]; static int next = 0;
    if(len > SZ) return nullptr;
    uint8_t*& s = slot[next]; next = (next + 1) % NS;
    if(!s) { uint8_t* m = (uint8_t*)mmap(0, SZ + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(m == MAP_FAILED) return nullptr; mprotect(m + 4096, SZ, PROT_READ | PROT_WRITE); s = m + 4096; }
    return align_end ? s + SZ - len : s;
}
__attribute__((noinline)) void paintStack(int byte) { size_t n = 192 * 1024; volatile uint8_t* p = (volatile uint8_t*)alloca(n); for(size_t i = 0; i < n; i += 1) p[i] = (uint8_t)byte; asm volatile("" ::: "memory"); }
static void mbegin(void*) { mem::ctl.armed = true; }
static void mend(void*) { mem::ctl.armed = false; }
BlsHooks memHooks(bool guard) { BlsHooks h{}; h.begin = mbegin; h.end = mend; if(guard) h.guard = guardAlloc; return h; }

// ------------------------------------------------------------------ clean process for reference calls
static int zyReq = -1, zyRes = -1; static pid_t zyPid = 0;
static bool wr(int fd, const void* p, size_t n) { auto b = (const char*)p; while(n) { ssize_t k = write(fd, b, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) return false; b += k; n -= k; } return true; }
static bool rd(int fd, void* p, size_t n) { auto b = (char*)p; while(n) { ssize_t k = read(fd, b, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) return false; b += k; n -= k; } return true; }
void aloneInit() {
    if(zyPid) return;
    int a[2], b[2]; if(pipe(a) || pipe(b)) abort();
    zyPid = fork();
    if(!zyPid) {
        close(a[1]); close(b[0]);
        while(true) {
            int32_t hd[4]; if(!rd(a[0], hd, sizeof hd)) _exit(0);
            Bytes ser(hd[2]); if(hd[2] && !rd(a[0], ser.data(), ser.size())) _exit(0);
            int c[2]; if(pipe(c)) _exit(1);
            pid_t p = fork();
            if(!p) {
                rlimit zl{8, 9}; setrlimit(RLIMIT_CPU, &zl);
                if(hd[3]) { mem::ctl.fill = hd[3] & 0xff; paintStack(hd[3] & 0xff); }
                BlsHooks mh = memHooks(false);
                Res r = callSer(hosts[hd[0]], hd[1], ser, &mh);
                str s = r.canon(); if(!r.intact) s += "ARGS-MODIFIED";
                uint32_t n = s.size(); wr(c[1], &n, 4); wr(c[1], s.data(), n); _exit(0);
            }
            close(c[1]); uint32_t n = 0; str s; if(rd(c[0], &n, 4)) { s.resize(n); if(!rd(c[0], s.data(), n)) s = "!died"; } else s = "!died";
            close(c[0]); int st; waitpid(p, &st, 0);
            n = s.size(); wr(b[1], &n, 4); wr(b[1], s.data(), n);
        }
    }
    close(a[0]); close(b[1]); zyReq = a[1]; zyRes = b[0];
}
str aloneCall(const Host& h, const str& op, const AB& a, int fill) {
    aloneInit();
    Bytes ser = a.ser(); int32_t hd[4] = { (int32_t)(&h - &hosts[0]), h.op(op), (int32_t)ser.size(), fill };
    if(!wr(zyReq, hd, sizeof hd) || !wr(zyReq, ser.data(), ser.size())) abort();
    uint32_t n; if(!rd(zyRes, &n, 4)) abort();
    str s(n, 0); if(!rd(zyRes, s.data(), n)) abort();
    return s;
}
// ------------------------------------------------------------------ pools
template<class P> static P torsion(u64 salt, const vec<u64>& cof, const P&);
static G1 pt1(u64 s) { Rng r(s); while(true) { Fp x = Fp::of(r.next() >> 8), y; if((x*x*x + ref::curveB((Fp*)0)).sqrt(y)) return G1::aff(x, r.p(.5) ? y : y.neg()); } }
static G2 pt2(u64 s) { Rng r(s); while(true) { Fp2 x{Fp::of(r.next() >> 8), Fp::of(r.next() >> 8)}, y; if((x*x*x + ref::curveB((Fp2*)0)).sqrt(y)) return G2::aff(x, r.p(.5) ? y : y.neg()); } }
typedef std::array<u64,8> L8;
template<size_t N> static std::array<u64,N> divsmall(std::array<u64,N> a, u64 d) { unsigned __int128 c = 0; for(int i = N-1; i >= 0; i--) { c = c << 64 | a[i]; a[i] = (u64)(c / d); c %= d; } return a; }
const Pool& pool() {
    static Pool* P = nullptr;
    if(P) return *P;
    P = new Pool; Pool& p = *P;
    Rng r(0x5eed);
    Sc a{}, b{}; for(auto& x : a) x = r.next(); for(auto& x : b) x = r.next(); a = ref::modr(a); b = ref::modr(b);
    p.k.resize(Pool::N); p.p1.resize(Pool::N); p.p2.resize(Pool::N);
    G1 s1 = ref::gen1().mul(b).norm(), c1 = ref::gen1().mul(a).norm(); G2 s2 = ref::gen2().mul(b).norm(), c2 = ref::gen2().mul(a).norm(); Sc k = a;
    for(int i = 0; i < Pool::N; i++) { p.k[i] = k; p.p1[i] = c1; p.p2[i] = c2; k = ref::addr(k, b); c1 = (c1 + s1).norm(); c2 = (c2 + s2).norm(); }
    static const size_t lens[Pool::NM] = {0, 1, 31, 32, 55, 56, 64, 119, 200, 1000, 2, 3, 20, 30, 33, 48, 63, 65, 96, 118, 120, 127, 128, 129, 250, 255, 256, 257, 400, 513};
    for(int m = 0; m < Pool::NM; m++) {
        p.msg.push_back(r.bytes(lens[m])); if(m == 4) { p.msg[4] = p.msg[3]; p.msg[4].resize(55, 0); } if(m == 11) { p.msg[11] = p.msg[10]; p.msg[11].push_back(0); } // proper prefixes of each other
        p.H.push_back(ref::hash2(p.msg[m], ref::str(ref::SIG_DST)).norm());
        G2 c = p.H[m].mul(a), s = p.H[m].mul(b); p.sig.push_back({});
        for(int i = 0; i < Pool::N; i++) { p.sig[m].push_back(c); c = c + s; }
    }
    // cofactor of E(Fp): 3 * 11^2 * 10177^2 * 859267^2 * 52437899^2 ; of E'(Fp2): 13^2 * 23^2 * 2713 * 11953 * 262069 * big
    static const std::array<u64,2> h1 = {0x8c00aaab0000aaabull, 0x396c8c005555e156ull};
    static const L8 h2 = {0xcf1c38e31c7238e5ull, 0x1616ec6e786f0c70ull, 0x21537e293a6691aeull, 0xa628f1cb4d9e82efull, 0xa68a205b2e5a7ddfull, 0xcd91de4547085abaull, 0x091d50792876a202ull, 0x05d543a95414e7f1ull};
    auto add1 = [&](const G1& t, const str& n) { if(!t.inf()) { p.tors1.push_back(t.norm()); p.tors1n.push_back(n); } };
    auto add2 = [&](const G2& t, const str& n) { if(!t.inf()) { p.tors2.push_back(t.norm()); p.tors2n.push_back(n); } };
    for(u64 q : {3ull, 11ull, 10177ull, 859267ull, 52437899ull}) for(u64 s = 1; s < 4; s++) { G1 t = pt1(q*7 + s).mul(ref::Rr).mul(divsmall(h1, q)); add1(t, fmt("ord%llu", (unsigned long long)q)); if(!t.inf()) break; }
    add1(pt1(5).mul(ref::Rr), "cofactor");
    for(u64 q : {13ull, 23ull, 2713ull, 11953ull, 262069ull}) for(u64 s = 1; s < 4; s++) { G2 t = pt2(q*7 + s).mul(ref::Rr).mul(divsmall(h2, q)); add2(t, fmt("ord%llu", (unsigned long long)q)); if(!t.inf()) break; }
    add2(pt2(5).mul(ref::Rr), "cofactor");
    { G2 e = G2::aff({Fp::hex("09f1477ff0430ca4808b4b98f3ce959fcb5be667df6ef1073e182a4f887fa0f0b7fdd6105d99e027bba24c6b4e932032"), Fp::hex("0c2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced")}, {Fp::of(3), Fp::of(0)}); p.edge2.push_back(e); p.edge2.push_back(e.neg()); }
    { G2 e = G2::aff({Fp::hex("06e99ef914eed7209b51759c94a6a109ee476e3ca4db49c3182d8d0edf61d6213002db9a55f4b71c1f3be3a372d96323"), Fp::hex("06ed7257d7405e1ed5c54516c836a4f374fb2dffd1b4e3854ebd0a58f5bd48fb9b07ea16a89d7be9c945a5d6b033a8a5")}, {Fp::of(6), Fp::of(0)}); p.edge2.push_back(e); p.edge2.push_back(e.neg()); }
    { G2 e = G2::aff({Fp::hex("100fca6a493cd9f5ca905c1d4f7d1737991b651d141621b82918a8516e31553366ae29ee53ba1fd7fe5cb394b16c8a79"), Fp::hex("0c2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced")}, {Fp::of(0), Fp::of(1)}); p.edge2.push_back(e); p.edge2.push_back(e.neg()); }
    { G2 e = G2::aff({Fp::hex("180a1f093f9b3e7c804f2a9d45ee6bad8319bcdb5f0c6bfb88afbc074f518bfdd146688fb8d1a660e4141d3b7855234f"), Fp::hex("055afa3a2535382ab0e143b59da30c88c68671cdb28abd26102a4a044fbee6131913170907908de2d221f7263864d368")}, {Fp::of(0), Fp::of(2)}); p.edge2.push_back(e); p.edge2.push_back(e.neg()); }
    return p;
}
// ------------------------------------------------------------------ structured random values
static u64 randLimb(Rng& r) { switch(r.below(8)) { case 0: return 0; case 1: return ~0ull; case 2: return 1; case 3: return ~0ull - 1; case 4: return 1ull << r.below(64); case 5: return (1ull << r.below(64)) - 1; default: return r.next(); } }
L6 randLimbs(Rng& r) {
    L6 x{};
    switch(r.below(6)) {
        case 0: for(auto& l : x) l = r.next(); break;
        case 1: x = ref::PP; { L6 d{r.below(4) ? r.below(20) : r.next()}; ref::subto(x, d); } break;              // close to p
        case 2: x = {r.below(4) ? r.below(20) : r.next()}; break;                                                   // close to 0
        case 3: x = ref::PP; { int k = r.below(6); for(int i = 0; i < 6; i++) if(i <= k) x[i] = randLimb(r); } break; // shares high limbs with p
        case 4: x = ref::Fp::shr(ref::PP, 1); { L6 d{r.below(8)}; if(r.p(.5)) ref::subto(x, d); else ref::addto(x, d); } break; // around p/2
        default: for(auto& l : x) l = randLimb(r);
    }
    while(ref::cmp(x, ref::PP) >= 0) { x[5] = r.p(.5) ? x[5] % ref::PP[5] : x[5] >> 1; if(x[5] == ref::PP[5]) x[5]--; }
    return x;
}
Fp randFp(Rng& r) { Fp f; f.d = randLimbs(r); return f; }
Fp2 randFp2(Rng& r) { Fp2 f{randFp(r), randFp(r)}; if(r.p(.1)) f.a = Fp{}; if(r.p(.1)) f.b = Fp{}; return f; }
Sc randSk(Rng& r) {
    Sc s{};
    switch(r.below(6)) {
        case 0: s = {r.range(1, 20)}; break;
        case 1: s = ref::Rr; ref::subto(s, Sc{r.range(1, 20)}); break;
        case 2: s[r.below(4)] = 1ull << r.below(62); break;
        default: for(auto& l : s) l = r.next(); s = ref::modr(s);
    }
    if(ref::cmp(s, ref::Rr) >= 0) s = ref::modr(s);
    if(s == Sc{}) s = {1};
    return s;
}
Sc randScalar(Rng& r) {
    Sc s{};
    switch(r.below(8)) {
        case 0: return s;
        case 1: s = ref::Rr; if(r.p(.5)) ref::addto(s, Sc{r.below(5)}); else ref::subto(s, Sc{r.below(5)}); return s;
        case 2: for(auto& l : s) l = ~0ull; ref::subto(s, Sc{r.below(4)}); return s;
        case 3: for(auto& l : s) l = randLimb(r); return s;
        default: return randSk(r);
    }
}
G1 rerep(Rng& r, const G1& p) { if(p.inf()) { switch(r.below(3)) { case 0: return G1{}; case 1: return G1{Fp{}, Fp{}, Fp{}}; default: return G1{randFp(r), randFp(r), Fp{}}; } } if(r.p(.3)) return p.norm(); Fp l = randFp(r); if(r.p(.08)) l = Fp::one().neg(); if(l.isz()) l = Fp::of(2); return p.norm().rerep(l); }
G2 rerep(Rng& r, const G2& p) { if(p.inf()) { switch(r.below(3)) { case 0: return G2{}; case 1: return G2{Fp2{}, Fp2{}, Fp2{}}; default: return G2{randFp2(r), randFp2(r), Fp2{}}; } } if(r.p(.3)) return p.norm(); Fp2 l = randFp2(r); if(r.p(.2)) { Fp e[] = {Fp{}, Fp::one(), Fp::one(), Fp::one().neg(), randFp(r), randFp(r)}; l = {e[r.below(6)], e[r.below(6)]}; } if(l.isz()) l = Fp2::of(2); return p.norm().rerep(l); }   // also special forms of z: a real or imaginary part of 0, 1, -1
Bytes randMsg(Rng& r, size_t maxlen) {
    size_t n;
    switch(r.below(6)) { case 0: n = r.below(4); break; case 1: n = 55 + r.below(20); break; case 2: n = r.below(300); break; case 3: n = 32; break; case 4: n = 64 * r.range(1, 8) - r.below(10); break; default: n = r.below(maxlen + 1); }
    if(n > maxlen) n = maxlen;
    Bytes b = r.bytes(n);
    if(r.p(.1)) for(auto& x : b) x = 0; if(r.p(.05)) for(auto& x : b) x = 0xff;
    return b;
}
int cpuAlarmSeconds() { return 20; }

// ------------------------------------------------------------------ running one plan in its own process
struct Shared { volatile char note[1024]; };
static Shared* shm;
static str jesc(const str& s) { str o; for(unsigned char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c < 32) o += fmt("\\u%04x", c); else o += c; } return o; }
static Report runForked(const Prop& pr, const Plan& plan) {
    int c[2]; if(pipe(c)) abort();
    shm->note[0] = 0; progressNote = shm->note;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if(!p) {
        close(c[0]); zyPid = 0;
        // the sanitised child: no core, bounded cpu time (a hang is reported, and re-confirmed by replay)
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rl = {(rlim_t)cpuAlarmSeconds(), (rlim_t)cpuAlarmSeconds() + 5}; setrlimit(RLIMIT_CPU, &rl);
        alarm(cpuAlarmSeconds() * 10);
        int dn = open("/dev/null", 1); if(dn >= 0) { if(!getenv("SIM_DEBUG")) { dup2(dn, 2); } }
        Report r;
        try { pr.exec(plan, r); }
        catch(Violation& v) { r.vkind = v.kind; r.vdetail = v.detail; }
        std::ostringstream o;
        o << r.hash << "\n" << r.vkind << "\n" << jesc(r.vdetail) << "\n" << r.cnt.size() << "\n";
        for(auto& k : r.cnt) o << k.first << " " << k.second << "\n";
        o << r.states.size(); for(auto s : r.states) o << " " << s; o << "\nEND\n";
        str s = o.str(); wr(c[1], s.data(), s.size());
        _exit(0);
    }
    close(c[1]);
    str s; char b[65536]; ssize_t k; while((k = read(c[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if(k > 0) s.append(b, k);
    close(c[0]);
    int st = 0; waitpid(p, &st, 0);
    Report r;
    if(s.size() < 4 || s.substr(s.size() - 4) != "END\n") {
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        bool hang = sig == SIGXCPU || sig == SIGALRM || sig == SIGKILL;
        r.vkind = hang ? "hang" : "crash";
        r.vdetail = fmt("%s (signal %d, status %d) while: %s", hang ? "no progress" : "process died", sig, st, (const char*)shm->note);
        r.hash = hstr(r.vkind + fmt("%d", sig));
        return r;
    }
    std::istringstream is(s); str l; std::getline(is, l); r.hash = strtoull(l.c_str(), 0, 10); std::getline(is, r.vkind); std::getline(is, r.vdetail);
    std::getline(is, l); int n = atoi(l.c_str()); for(int i = 0; i < n; i++) { std::getline(is, l); auto e = l.rfind(' '); r.cnt[l.substr(0, e)] = strtoull(l.c_str() + e + 1, 0, 10); }
    size_t ns; is >> ns; r.states.resize(ns); for(auto& x : r.states) is >> x;
    return r;
}
#include <fcntl.h>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Prop* find(const char* id) { for(auto& p : props()) if(str(p.id) == id) return &p; fprintf(stderr, "no property %s\n", id); exit(3); }
static Plan readPlan(const char* f) { Plan p; FILE* h = fopen(f, "r"); if(!h) { perror(f); exit(3); } char* l = 0; size_t c = 0; ssize_t n; while((n = getline(&l, &c, h)) > 0) { while(n && (l[n-1] == '\n' || l[n-1] == '\r')) l[--n] = 0; if(n && l[0] != '#') p.push_back(l); } fclose(h); free(l); return p; }
static void flipEnv(bool disable);
static char* envSlot = nullptr;
static void flipEnv(bool disable) { if(envSlot) memcpy(envSlot, disable ? "BLS" : "XLS", 3); }

// SIM_HOSTS="name=path[:noext],name=path,..."   (":noext" = loaded with the environment asking to disable the extended instructions)
static void loadAll() {
    for(char** e = environ; *e; e++) if(!strncmp(*e, "XLS_DISABLE_BMI2", 16)) envSlot = *e;
    const char* s = getenv("SIM_HOSTS"); if(!s) return;
    str t = s; size_t i = 0; vec<str> parts;
    while(i < t.size()) { size_t j = t.find(',', i); if(j == str::npos) j = t.size(); parts.push_back(t.substr(i, j - i)); i = j + 1; }
    hosts.reserve(parts.size() + 4);
    for(auto& x : parts) {
        size_t e = x.find('='); str nm = x.substr(0, e), path = x.substr(e + 1); bool noext = false;
        if(path.size() > 6 && path.substr(path.size() - 6) == ":noext") { noext = true; path.resize(path.size() - 6); }
        flipEnv(noext); Host h; if(!loadHost(nm, path, h)) exit(3); h.instrumented = nm.substr(0, 4) == "inst"; hosts.push_back(h); flipEnv(false);
    }
}
static void printReport(const Report& r) {
    printf("{\"hash\":\"%016llx\",\"violation\":\"%s\",\"detail\":\"%s\",\"counters\":{", (unsigned long long)r.hash, r.vkind.c_str(), r.vdetail.c_str());
    bool f = true; for(auto& k : r.cnt) { printf("%s\"%s\":%llu", f ? "" : ",", k.first.c_str(), (unsigned long long)k.second); f = false; }
    printf("}}\n"); fflush(stdout);
}
extern int cpuChildMain() __attribute__((weak));
int main(int argc, char** argv) {
    if(argc > 1 && !strcmp(argv[1], "cpuchild") && cpuChildMain) return cpuChildMain();
    if(!getenv("SIM_NOASLR")) { personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); execv(argv[0], argv); }
    shm = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    signal(SIGPIPE, SIG_IGN);
    if(argc < 3) { fprintf(stderr, "usage: sim gen|run|exec|hash|worker PROP ...\n"); return 3; }
    str cmd = argv[1]; Prop* pr = find(argv[2]);
    bool thorough = getenv("VERIF_TIER") && str(getenv("VERIF_TIER")) == "thorough";
    loadAll();
    if(cmd == "gen") { for(auto& l : pr->gen(strtoull(argv[3], 0, 0), thorough)) puts(l.c_str()); return 0; }
    if(pr->warm) pr->warm();
    if(cmd == "run") { printReport(runForked(*pr, pr->gen(strtoull(argv[3], 0, 0), thorough))); return 0; }
    if(cmd == "exec") { for(int i = 3; i < argc; i++) printReport(runForked(*pr, readPlan(argv[i]))); return 0; }
    if(cmd == "execstdin") { // one plan file name per line; the minimiser's server
        char* l = 0; size_t c = 0; ssize_t n; while((n = getline(&l, &c, stdin)) > 0) { while(n && l[n-1] == '\n') l[--n] = 0; printReport(runForked(*pr, readPlan(l))); } return 0; }
    if(cmd == "worker") {
        // worker PROP base start stride minRuns timeLimit hardLimit statesFile
        u64 base = strtoull(argv[3], 0, 0), start = strtoull(argv[4], 0, 0), stride = strtoull(argv[5], 0, 0), minRuns = strtoull(argv[6], 0, 0);
        double tl = atof(argv[7]), hard = atof(argv[8]); double t0 = now();
        std::map<str,u64> cnt; std::set<u64> st, hashes; u64 runs = 0, again = 0, nondet = 0, nviol = 0; str samples; int ns = 0;
        for(u64 i = start;; i += stride) {
            double t = now() - t0;
            if((t >= tl && runs >= minRuns) || t >= hard) break;
            u64 seed = base * 1000000007ull + i;
            Plan pl = pr->gen(seed, thorough);
            Report r = runForked(*pr, pl); runs++;
            if(runs % 16 == 3 && r.vkind.empty()) { Report r2 = runForked(*pr, pl); again++; if(r2.hash != r.hash) { nondet++; r.vkind = r2.vkind.empty() ? "nondeterministic-outcome" : r2.vkind; r.vdetail = r2.vkind.empty() ? "two executions of the same schedule observed different results" : r2.vdetail; } }
            for(auto& k : r.cnt) { u64& c = cnt[k.first]; if(k.first.compare(0, 4, "max_") == 0) { if(k.second > c) c = k.second; } else c += k.second; }
            for(auto s : r.states) if(st.size() < 4000000) st.insert(s);
            hashes.insert(r.hash);
            if(ns < 3 && r.vkind.empty()) { ns++; printf("SAMPLE {\"seed\":%llu,\"hash\":\"%016llx\",\"steps\":%zu,\"first\":\"%s\"}\n", (unsigned long long)seed, (unsigned long long)r.hash, pl.size(), jesc(pl.size() > 1 ? pl[1] : pl.empty() ? "" : pl[0]).substr(0, 160).c_str()); }
            if(!r.vkind.empty()) { printf("VIOL {\"seed\":%llu,\"kind\":\"%s\",\"detail\":\"%s\"}\n", (unsigned long long)seed, r.vkind.c_str(), r.vdetail.c_str()); fflush(stdout); if(++nviol >= 2) break; }
        }
        FILE* f = fopen(argv[9], "wb"); for(u64 s : st) fwrite(&s, 8, 1, f); fclose(f);
        f = fopen((str(argv[9]) + ".h").c_str(), "wb"); for(u64 s : hashes) fwrite(&s, 8, 1, f); fclose(f);
        printf("DONE {\"runs\":%llu,\"replayed\":%llu,\"nondet\":%llu,\"wall\":%.3f,\"counters\":{", (unsigned long long)runs, (unsigned long long)again, (unsigned long long)nondet, now() - t0);
        bool ff = true; for(auto& k : cnt) { printf("%s\"%s\":%llu", ff ? "" : ",", k.first.c_str(), (unsigned long long)k.second); ff = false; }
        printf("}}\n"); return 0;
    }
    return 3;
}
