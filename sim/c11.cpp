// C11: simulated processors and process starts. The image of the library is copied with every instruction the simulated
// processor lacks replaced by an undefined one (as the real one would treat it), CPUID faults and is answered by the
// simulation, and a real process is started on it with the argument vector and environment of the plan.
#include "core.hpp"
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <errno.h>
#include <cpuid.h>
#ifndef ARCH_SET_CPUID
#define ARCH_SET_CPUID 0x1012
#endif
namespace {
// feature -> (leaf, register 0..3 = eax ebx ecx edx, bit)
struct Feat { const char* n; uint32_t leaf; int reg, bit; };
const Feat FEATS[] = {{"bmi2", 7, 1, 8}, {"adx", 7, 1, 19}, {"bmi1", 7, 1, 3}, {"avx2", 7, 1, 5}, {"avx512", 7, 1, 16}, {"sha", 7, 1, 29}, {"rdseed", 7, 1, 18},
  {"sse3", 1, 2, 0}, {"pclmul", 1, 2, 1}, {"ssse3", 1, 2, 9}, {"fma", 1, 2, 12}, {"sse41", 1, 2, 19}, {"sse42", 1, 2, 20}, {"movbe", 1, 2, 22}, {"popcnt", 1, 2, 23}, {"aes", 1, 2, 25}, {"avx", 1, 2, 28}, {"rdrand", 1, 2, 30}, {"lzcnt", 0x80000001, 2, 5}};
constexpr int NF = sizeof(FEATS)/sizeof(*FEATS);
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 11); Plan p; p.push_back("!world"); int n = r.range(1, thorough ? 4 : 2);
    static const vec<str> light = opNamesWhere("light"), mid = opNamesWhere("mid");
    for(int i = 0; i < n; i++) {
        u64 f = 0; switch(r.below(6)) { case 0: f = r.next(); break; case 1: f = 0; break; case 2: f = ~0ull; break; case 3: f = ~0ull & ~1ull; break; case 4: f = ~0ull & ~2ull; break; default: f = r.next() | r.next(); }
        if(r.p(.15)) f &= ~3ull; if(r.p(.1)) f |= 3;
        int ml = r.p(.6) ? (int)r.range(7, 0x20) : (int)r.pick(vec<int>{1, 2, 3, 4, 5, 6, 7, 0xd, 0x14});
        p.push_back(fmt("start i=%d host=%d feats=0x%llx maxleaf=%d junk=%d ld=%d", i, (int)r.below(8), (unsigned long long)(f & ((1ull << NF) - 1)), ml, (int)r.below(4), (int)r.p(.15)));
        int ne = r.p(.2) ? 0 : r.p(.1) ? r.range(200, 1500) : r.below(12);
        int dis = r.p(.35) ? r.below(ne + 1) : -1;
        for(int k = 0; k <= ne; k++) {
            if(k == dis) { static const vec<str> v{"BLS_DISABLE_BMI2=1", "BLS_DISABLE_BMI2=yes", "BLS_DISABLE_BMI2=", "BLS_DISABLE_BMI2=true", "BLS_DISABLE_BMI2=1"}; str s = r.pick(v); p.push_back(fmt("env i=%d s=", i) + hex(Bytes(s.begin(), s.end()))); }
            if(k == ne) break;
            str s; switch(r.below(12)) { case 0: s = ""; break; case 1: s = "BLS_DISABLE_BMI"; break; case 2: s = "XBLS_DISABLE_BMI2=1"; break; case 3: s = "BLS_DISABLE_BM"; break; case 4: s = "B"; break; case 5: s = "no_equals_sign"; break; case 6: s = str(r.p(.1) ? 60000 : 300, 'x') + "=1"; break; case 7: s = "V=BLS_DISABLE_BMI2=1"; break; case 8: s = "bls_disable_bmi2=1"; break; default: s = fmt("V%d=%llu", (int)r.below(100), (unsigned long long)r.next()); }
            p.push_back(fmt("env i=%d s=", i) + hex(Bytes(s.begin(), s.end())));
        }
        int na = r.p(.5) ? 0 : r.p(.1) ? r.range(50, 400) : r.below(5);
        for(int k = 0; k < na; k++) { str s = r.p(.2) ? "BLS_DISABLE_BMI2=1" : r.p(.2) ? "" : fmt("--arg%d", k); p.push_back(fmt("arg i=%d s=", i) + hex(Bytes(s.begin(), s.end()))); }
        int no = r.range(1, 8); for(int k = 0; k < no; k++) { str o = k == 0 ? r.pick(vec<str>{"fp_mul", "fp_sqr", "g1_scale", "g2_add", "raw", "fp12_mul"}) : r.p(.85) ? r.pick(light) : r.p(.7) ? r.pick(mid) : r.pick(opNames()); p.push_back(fmt("op i=%d op=%s s=%llu", i, o.c_str(), (unsigned long long)r.next() % 1000000)); }
    }
    return p;
}
// ---- instruction sites that need a feature, from the disassembly made at build time: "offset length feature where"
struct Site { u64 off; int len; str feat, where; };
const vec<Site>& sites(const str& path) { static std::map<str,vec<Site>> c; auto it = c.find(path); if(it != c.end()) return it->second; vec<Site> v; FILE* f = fopen((path + ".sites").c_str(), "r"); if(f) { char a[64], w[256]; unsigned long long o; int l; while(fscanf(f, "%llx %d %63s %255s", &o, &l, a, w) == 4) v.push_back({o, l, a, w}); fclose(f); } return c[path] = v; }
bool wrAll(int fd, const void* p, size_t n) { auto b = (const char*)p; while(n) { ssize_t k = write(fd, b, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) return false; b += k; n -= k; } return true; }
bool rdAll(int fd, void* p, size_t n) { auto b = (char*)p; while(n) { ssize_t k = read(fd, b, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) return false; b += k; n -= k; } return true; }
void wrStr(int fd, const str& s) { uint32_t n = s.size(); wrAll(fd, &n, 4); wrAll(fd, s.data(), n); }
bool rdStr(int fd, str& s) { uint32_t n; if(!rdAll(fd, &n, 4)) return false; s.resize(n); return rdAll(fd, s.data(), n); }
// ---- the started process
struct Cpu { uint32_t maxleaf; u64 feats; int junk; } cpu;
u64 base0, cpuids;
void real(uint32_t l, uint32_t s, uint32_t* o) { syscall(SYS_arch_prctl, ARCH_SET_CPUID, 1); __cpuid_count(l, s, o[0], o[1], o[2], o[3]); syscall(SYS_arch_prctl, ARCH_SET_CPUID, 0); }
void onSegv(int, siginfo_t*, void* u) {
    auto* g = ((ucontext_t*)u)->uc_mcontext.gregs; auto* ip = (uint8_t*)g[REG_RIP];
    if(ip[0] != 0x0f || ip[1] != 0xa2) { str m = fmt("segv ip=%llx", (unsigned long long)(g[REG_RIP] - base0)); wrStr(4, "!" + m); _exit(1); }
    cpuids++; uint32_t leaf = g[REG_RAX], sub = g[REG_RCX], o[4];
    bool ext = leaf >= 0x80000000u; uint32_t eff = leaf;
    if(!ext && leaf > cpu.maxleaf) {     // a real processor answers with the data of its highest basic leaf, or with zeros
        switch(cpu.junk) { case 0: o[0] = o[1] = o[2] = o[3] = 0; break; case 1: o[0] = o[1] = o[2] = o[3] = ~0u; break; case 2: o[0] = 0x76036301; o[1] = 0x00f0b6ff; o[2] = 0; o[3] = 0x00c30000; break; default: o[0] = 0x40; o[1] = 0x80140; o[2] = 3; o[3] = 0x1120; }
        if(cpu.junk != 0) o[1] |= 1u << 8 | 1u << 19; goto out; }
    real(eff, sub, o);
    if(leaf == 0) o[0] = cpu.maxleaf;
    if(leaf == 7 && sub != 0) { o[0] = o[1] = o[2] = o[3] = 0; if(cpu.junk == 1) o[1] = ~0u; }
    else for(int i = 0; i < NF; i++) if(FEATS[i].leaf == leaf && !(cpu.feats >> i & 1)) o[FEATS[i].reg] &= ~(1u << FEATS[i].bit);
out: g[REG_RAX] = o[0]; g[REG_RBX] = o[1]; g[REG_RCX] = o[2]; g[REG_RDX] = o[3]; g[REG_RIP] += 2;
}
void onIll(int, siginfo_t*, void* u) { Dl_info di; u64 ip = ((ucontext_t*)u)->uc_mcontext.gregs[REG_RIP]; u64 b = dladdr((void*)ip, &di) ? (u64)di.dli_fbase : 0; wrStr(4, fmt("!ill %llx", (unsigned long long)(ip - b))); _exit(2); }
int child() {
    // protocol on descriptors 3 (in) and 4 (out)
    str path, op, ser; uint32_t nops; if(!rdAll(3, &cpu, sizeof cpu) || !rdStr(3, path) || !rdAll(3, &nops, 4)) return 3;
    struct sigaction sa{}; sa.sa_flags = SA_SIGINFO; sa.sa_sigaction = onSegv; sigaction(SIGSEGV, &sa, 0); sa.sa_sigaction = onIll; sigaction(SIGILL, &sa, 0);
    if(syscall(SYS_arch_prctl, ARCH_SET_CPUID, 0)) { wrStr(4, "!nofault"); return 4; }
    Host h; if(!loadHost("cpu", path, h)) { wrStr(4, str("!dlopen ") + (dlerror() ?: "")); return 5; }
    for(uint32_t i = 0; i < nops; i++) { if(!rdStr(3, op) || !rdStr(3, ser)) return 6; int o = h.op(op); Res r = callSer(h, o, Bytes(ser.begin(), ser.end())); wrStr(4, r.canon()); }
    wrStr(4, fmt("cpuid %llu", (unsigned long long)cpuids)); return 0;
}
struct AtStart { AtStart() {} };
str selfPath() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; return b; }
str unhex(const str& h) { str s; for(size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return s; }
void exec(const Plan& plan, Report& R) {
    aloneInit();
    for(auto& line : plan) {
        Ln l(line); if(l.verb != "start") continue; u64 id = l.n("i"), feats = l.n("feats"); const Host& h = hosts[l.n("host") % hosts.size()];
        vec<str> env, arg; vec<Ln> ops; bool disable = false;
        for(auto& s : plan) { Ln q(s); if(q.n("i", 99) != id) continue; if(q.verb == "env") { str v = unhex(q.s("s")); env.push_back(v); if(v.compare(0, 17, "BLS_DISABLE_BMI2=") == 0 && h.name != "noelf") disable = true; } else if(q.verb == "arg") arg.push_back(unhex(q.s("s"))); else if(q.verb == "op" && h.op(q.s("op")) >= 0) ops.push_back(q); }
        { uint32_t q[4]; u64 have = 0; for(int i = 0; i < NF; i++) { q[0] = q[1] = q[2] = q[3] = 0; __get_cpuid_count(FEATS[i].leaf, 0, &q[0], &q[1], &q[2], &q[3]); if(q[FEATS[i].reg] >> FEATS[i].bit & 1) have |= 1ull << i; } feats &= have; }   // the simulated processor has no more than the real one
        // the image as this processor executes it
        FILE* f = fopen(h.path.c_str(), "rb"); if(!f) R.fail("harness", h.path); Bytes img; uint8_t b[65536]; size_t k; while((k = fread(b, 1, sizeof b, f))) img.insert(img.end(), b, b + k); fclose(f);
        const vec<Site>& ss = sites(h.path); if(ss.empty()) R.fail("harness", "no instruction sites for " + h.path); std::map<u64,str> patched; u64 lacking = 0;
        for(auto& s : ss) { int fi = -1; for(int i = 0; i < NF; i++) if(s.feat == FEATS[i].n) fi = i; if(fi < 0) continue; bool off = !(feats >> fi & 1); bool req = disable && (s.feat == "bmi2" || s.feat == "adx"); if(!off && !req) continue;
            lacking++; if(s.feat == "lzcnt" || s.feat == "bmi1tz") { img[s.off] = 0x3e; continue; } img[s.off] = 0x0f; img[s.off + 1] = 0x0b; patched[s.off] = s.feat + " instruction at " + s.where + (off ? "" : " although the environment disables it"); }
        int mfd = memfd_create("image", 0); if(mfd < 0 || !wrAll(mfd, img.data(), img.size())) R.fail("harness", "memfd"); str path = fmt("/proc/self/fd/%d", 5);
        int in[2], out[2]; if(pipe(in) || pipe(out)) R.fail("harness", "pipe");
        vec<char*> av, ev; str self = selfPath(), ld = "/lib64/ld-linux-x86-64.so.2"; bool useLd = l.n("ld");
        if(useLd) av.push_back((char*)ld.c_str()); av.push_back((char*)self.c_str()); av.push_back((char*)"cpuchild"); for(auto& a : arg) av.push_back((char*)a.c_str()); av.push_back(nullptr); for(auto& e : env) ev.push_back((char*)e.c_str()); ev.push_back(nullptr);
        note(fmt("start %llu on %s, features 0x%llx, max leaf %llu", (unsigned long long)id, h.name.c_str(), (unsigned long long)feats, (unsigned long long)l.n("maxleaf")));
        pid_t p = fork();
        if(!p) { int a = dup(in[0]), b2 = dup(out[1]), c = dup(mfd); int hi = 200; a = fcntl(a, F_DUPFD, hi); b2 = fcntl(b2, F_DUPFD, hi); c = fcntl(c, F_DUPFD, hi); dup2(a, 3); dup2(b2, 4); dup2(c, 5); for(int q = 6; q < 260; q++) close(q); execve(useLd ? ld.c_str() : self.c_str(), av.data(), ev.data()); _exit(9); }
        close(in[0]); close(out[1]); close(mfd);
        Cpu c{(uint32_t)l.n("maxleaf", 7), feats, (int)l.n("junk")}; wrAll(in[1], &c, sizeof c); wrStr(in[1], path); uint32_t n = ops.size(); wrAll(in[1], &n, 4);
        R.add("process_starts"); if(disable) R.add("fault_extensions_disabled_by_environment"); if(!(feats & 1)) R.add("fault_cpu_without_bmi2"); if(!(feats & 2)) R.add("fault_cpu_without_adx"); if(l.n("maxleaf") < 7) R.add("fault_cpu_with_few_leaves"); if(useLd) R.add("fault_started_by_explicit_loader"); R.add("instructions_made_undefined", lacking);
        str where = fmt("start %llu (%s, features 0x%llx, max leaf %llu%s%s): ", (unsigned long long)id, h.name.c_str(), (unsigned long long)feats, (unsigned long long)l.n("maxleaf"), disable ? ", extensions disabled" : "", useLd ? ", explicit loader" : "");
        str kind, det; vec<OpInst> os; for(auto& o : ops) os.push_back(makeOp(o.s("op"), o.n("s")));
        for(size_t i = 0; i <= ops.size() && kind.empty(); i++) {
            if(i < ops.size()) { Bytes s = os[i].a.ser(); wrStr(in[1], os[i].name); wrStr(in[1], str(s.begin(), s.end())); }
            str res; if(!rdStr(out[0], res)) { kind = "start-failed"; det = where + "the process ended without a result" + (i < ops.size() ? " in " + os[i].name : ""); break; }
            if(res.compare(0, 5, "!ill ") == 0) { u64 off = strtoull(res.c_str() + 5, 0, 16); kind = "illegal-instruction"; auto it = patched.find(off); if(it == patched.end()) it = patched.begin(); str at; for(auto& q : patched) if(q.first == off) at = q.second; det = where + (at.size() ? at : fmt("at offset %llx", (unsigned long long)off)); break; }
            if(res.compare(0, 5, "!segv") == 0 || res.compare(0, 4, "!dlo") == 0 || res == "!nofault") { if(res == "!nofault") { R.add("cpuid_faulting_unavailable"); break; } kind = "start-failed"; det = where + res; break; }
            if(i < ops.size()) { R.add("lib_calls"); R.see(res); str want = aloneCall(hosts[0], os[i].name, os[i].a); if(res != want) { kind = "result-depends-on-processor"; det = where + os[i].name + fmt(" s=%llu: ", (unsigned long long)os[i].seed) + res.substr(0, 120) + " instead of " + want.substr(0, 120); } }
        }
        close(in[1]); close(out[0]); int st = 0; if(!kind.empty()) kill(p, SIGKILL); waitpid(p, &st, 0);
        if(kind == "start-failed" && WIFSIGNALED(st)) det += fmt(" (signal %d)", WTERMSIG(st));
        R.state(mix(feats & 7) ^ mix(l.n("maxleaf") * 4 + l.n("junk")) ^ mix(disable * 2 + useLd) ^ mix(lacking));
        if(!kind.empty()) R.fail(kind, det);
    }
}
Reg reg({"C11", gen, exec, {}, [] { pool(); opNames(); }});
}
int cpuChildMain() { return child(); }
