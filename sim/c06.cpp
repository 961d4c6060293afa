// C06: nodes store records on simulated disks and read them back, across crashes (unsynced sectors lost or torn)
// and media faults. Every decode is judged by a reference decoder working on the bytes the medium returned.
#include "net.hpp"
namespace {
enum { FP, FP2, FP6, FP12, TG1, TG2, SK, SCBE, SCLE, HEXV, HEX48, NT };
const char* tname[NT] = {"fp", "fp2", "fp6", "fp12", "g1", "g2", "sk", "scalarBE", "scalarLE", "hex", "hex48"};
int nf(int t) { return t == FP ? 1 : t == FP2 ? 2 : t == FP6 ? 6 : 12; }
const char* faults[] = {"flip", "flip1", "torn", "stale", "zero", "misdirect", "trunc", "addp", "setcoord", "flags", "ones", "swapcoord", "ypp", "endian", "infinity", "random", "negy", "extend"};
constexpr int NFLT = sizeof(faults)/sizeof(*faults);
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 6); Plan p; int nn = r.range(2, 3), slots = r.range(2, 8), n = r.range(6, thorough ? 60 : 30);
    p.push_back(fmt("!world seed=%llu nodes=%d", (unsigned long long)r.next() % 100000000, nn));
    u64 t = 0; int bias = r.p(.5) ? (int)r.below(NT) : -1;
    for(int i = 0; i < n; i++) {
        t += r.below(2000); int node = r.below(nn), slot = r.below(slots);
        switch(r.weighted({6, 3, 1, 6, 8})) {
            case 0: { int ty = bias >= 0 && r.p(.5) ? bias : (int)r.weighted({2, 1, 1, 1, 8, 8, 2, 1, 1, 2, 1}); p.push_back(fmt("put t=%llu node=%d slot=%d type=%d enc=%d raw=%d s=%llu sync=%d", (unsigned long long)t, node, slot, ty, (int)(r.p(.4) ? 0 : r.below(NENC)), (int)r.p(.15), (unsigned long long)r.next() % 10000000, (int)r.p(.6))); break; }
            case 1: p.push_back(fmt("sync t=%llu node=%d", (unsigned long long)t, node)); break;
            case 2: p.push_back(fmt("crash t=%llu node=%d s=%llu", (unsigned long long)t, node, (unsigned long long)r.next() % 1000000)); break;
            case 3: p.push_back(fmt("read t=%llu node=%d disk=%d slot=%d check=%d al=%d", (unsigned long long)t, node, (int)r.below(nn), slot, (int)r.p(.85), (int)r.below(2))); break;
            default: { int d = r.below(nn); p.push_back(fmt("rot t=%llu disk=%d slot=%d kind=%s s=%llu back=%d", (unsigned long long)t, d, slot, faults[r.below(NFLT)], (unsigned long long)r.next() % 10000000, (int)r.p(.5)));
                p.push_back(fmt("read t=%llu node=%d disk=%d slot=%d check=%d al=%d", (unsigned long long)t + 1, node, d, slot, (int)r.p(.85), (int)r.below(2))); }
        }
    }
    return p;
}
struct Rec { int type = 0, enc = 0; bool raw = false; vec<Fp> f; G1 a; G2 b; Sc s{}; Bytes y; size_t size = 0; };
Fp toRaw(const Fp& f) { return Fp::plain(f.d); }
Fp fromRaw(const Fp& f) { Fp r; r.d = f.canon(); return r; }
Fp2 toRaw(const Fp2& f) { return {toRaw(f.a), toRaw(f.b)}; }
Fp2 fromRaw(const Fp2& f) { return {fromRaw(f.a), fromRaw(f.b)}; }
template<class F> ref::Pt<F> mapRaw(const ref::Pt<F>& p, bool in) { return in ? ref::Pt<F>{fromRaw(p.x), fromRaw(p.y), fromRaw(p.z)} : ref::Pt<F>{toRaw(p.x), toRaw(p.y), toRaw(p.z)}; }
template<class F> Bytes encPt(const ref::Pt<F>& p, int e, bool raw) {
    if(!raw || e == COMP) return refEnc(p, e);
    Bytes o; size_t n = ref::FS<F>();
    if(e <= AFFLE) { if(p.inf()) return Bytes(2*n); auto q = p.norm(); ref::put(o, toRaw(q.x)); ref::put(o, toRaw(q.y)); } else o = ref::jacbe(mapRaw(p, false));
    return e == AFFLE || e == JACLE ? leOf<F>(o) : o;
}
template<class F> std::optional<ref::Pt<F>> decPt(const Bytes& b, int e, bool raw) {   // on-curve points only
    if(!raw || e == COMP) return refDec<F>(b, e, true);
    Bytes c = e == AFFLE || e == JACLE ? leOf<F>(b) : b; std::optional<ref::Pt<F>> p;
    if(e <= AFFLE) { F x, y; size_t n = ref::FS<F>(); if(!ref::rdF(&c[0], x) || !ref::rdF(&c[n], y)) return {}; if(x.isz() && y.isz()) return ref::Pt<F>{}; p = ref::Pt<F>::aff(fromRaw(x), fromRaw(y)); }
    else { auto q = ref::fromjac<F>(c, false); if(!q) return {}; p = mapRaw(*q, true); }
    if(!p->oncurve()) return {}; return p;
}
// field elements: coefficient order on the medium is highest first (BE) or lowest first (LE)
Bytes encF(const vec<Fp>& f, int e, bool raw) { Bytes o; if(e % 2 == 0) { for(int i = (int)f.size() - 1; i >= 0; i--) ref::put(o, raw ? toRaw(f[i]) : f[i]); return o; } for(auto& x : f) { Bytes t; ref::put(t, raw ? toRaw(x) : x); o = ref::cat(o, ref::rev(t.data(), 48)); } return o; }
std::optional<vec<Fp>> decF(const Bytes& b, int e, bool raw) { int n = b.size()/48; vec<Fp> f(n); for(int i = 0; i < n; i++) { Bytes t(&b[48*i], &b[48*i] + 48); if(e % 2) t = ref::rev(t.data(), 48); Fp x; if(!ref::rdF(t.data(), x)) return {}; f[e % 2 == 0 ? n-1-i : i] = raw ? fromRaw(x) : x; } return f; }
Bytes refEncRec(const Rec& r) { switch(r.type) { case TG1: return encPt(r.a, r.enc, r.raw); case TG2: return encPt(r.b, r.enc, r.raw); case SK: case SCBE: return ref::be32(r.s); case SCLE: { Bytes b = ref::be32(r.s); return Bytes(b.rbegin(), b.rend()); } case HEXV: case HEX48: { str s = "0x" + hex(r.y); return Bytes(s.begin(), s.end()); } default: return encF(r.f, r.enc, r.raw); } }
str canonF(const vec<Fp>& f, const Bytes& enc) { if(f.size() == 1) return refL(f[0]); str s; for(auto& x : f) s += refF(x); return s + refY(enc); }
// text expected from the library for these bytes; nothing if the bytes are not an encoding of a value
std::optional<str> refRead(const Rec& r, const Bytes& b) {
    switch(r.type) {
        case TG1: { auto p = decPt<Fp>(b, r.enc, r.raw); if(!p) return {}; return refVal(*p); }
        case TG2: { auto p = decPt<Fp2>(b, r.enc, r.raw); if(!p) return {}; return refVal(*p); }
        case SK: { Sc s = ref::frombe32(b.data()); if(ref::cmp(s, ref::Rr) >= 0) return {}; return refVal(s); }
        case SCBE: return refVal(ref::frombe32(b.data()));
        case SCLE: { Bytes c(b.rbegin(), b.rend()); return refVal(ref::frombe32(c.data())); }
        case HEXV: case HEX48: { str s(b.begin(), b.end()); if(s.size() % 2) return {}; if(s.substr(0, 2) == "0x") s = s.substr(2); Bytes o; for(size_t i = 0; i < s.size(); i += 2) { auto h = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }; int x = h(s[i]), y = h(s[i+1]); if(x < 0 || y < 0) return {}; o.push_back(x * 16 + y); } if(r.type == HEX48 && o.size() != 48) return {}; return refY(o); }
        default: { auto f = decF(b, r.enc, r.raw); if(!f) return {}; return canonF(*f, b); }
    }
}
Fp someFp(Rng& r) { Fp f = randFp(r); return r.p(.5) ? f : Fp::plain(f.d); }
void exec(const Plan& plan, Report& R) {
    const Pool& P = pool(); Ln w(plan[0]); Rng wr(w.n("seed"), 3); int nn = w.n("nodes", 2);
    struct Slot { Bytes durable, cached, prev; bool dirty = false; Rec rec; bool used = false; };
    struct Node { const Host* h; std::map<int,Slot> disk; }; vec<Node> N(nn); for(auto& n : N) n.h = &hostAt(wr.next()); Sim S;
    auto run = [&](const Host& h, const str& op, const AB& a) { BlsHooks hk{}; hk.guard = guardAlloc; Res s = call(h, op, a, &hk); R.add("lib_calls"); if(!s.ok()) R.fail("call-failed", h.name + " " + op + " " + s.canon()); if(!s.intact) R.fail("arguments-modified", op); return s; };
    auto makeRec = [&](const Ln& l) {
        Rng r(l.n("s"), 61); Rec c; c.type = l.n("type") % NT; c.raw = l.n("raw"); c.enc = l.n("enc") % NENC;
        if(c.type <= FP12) { c.enc %= 2; for(int i = 0; i < nf(c.type); i++) c.f.push_back(someFp(r)); }
        else if(c.type == TG1) { int i = r.below(Pool::N); switch(r.below(10)) { case 0: c.a = rerep(r, G1{}); break; case 1: c.a = r.pick(P.tors1); break; case 2: c.a = P.p1[i] + r.pick(P.tors1); break; case 3: c.a = P.p1[i].neg(); break; default: c.a = P.p1[i]; } if(c.enc >= JACBE) c.a = rerep(r, c.a); }
        else if(c.type == TG2) { int i = r.below(Pool::N); switch(r.below(12)) { case 0: c.b = rerep(r, G2{}); break; case 1: c.b = r.pick(P.tors2); break; case 2: c.b = P.p2[i] + r.pick(P.tors2); break; case 3: c.b = P.p2[i].neg(); break; case 4: case 5: c.b = r.pick(P.edge2); break; default: c.b = P.p2[i]; } if(c.enc >= JACBE) c.b = rerep(r, c.b); }
        else if(c.type <= SCLE) { c.s = c.type == SK ? randSk(r) : randScalar(r); }
        else { c.y = r.bytes(c.type == HEX48 ? 48 : r.below(80)); }
        return c; };
    auto libWrite = [&](const Host& h, const Rec& c, u64 s) -> Bytes {
        AB a; Rng r(s, 62); str raw = c.raw ? "1" : "0"; Res x;
        switch(c.type) {
            case TG1: a.P(rerep(r, c.a)); if(c.enc >= JACBE) { a.p1.clear(); a.P(c.a); } a.I(c.raw && c.enc != COMP); x = run(h, encOp(1, c.enc), a); break;
            case TG2: a.Q(rerep(r, c.b)); if(c.enc >= JACBE) { a.p2.clear(); a.Q(c.b); } a.I(c.raw && c.enc != COMP); x = run(h, encOp(2, c.enc), a); break;
            case SK: a.S(c.s); x = run(h, "sk_to_bytes", a); break;
            case SCBE: case SCLE: a.S(c.s).M(Bytes(32)); x = run(h, "scalar_bytes", a); return x.bytes(c.type == SCLE);
            case HEXV: case HEX48: a.M(c.y); x = run(h, "bytesToHex", a); break;
            default: for(auto& f : c.f) a.F(f.d); a.I(c.raw); x = run(h, str(tname[c.type]) + "_toBytes", a); return x.bytes(c.enc);
        }
        return x.bytes(); };
    auto disk = [&](Node& n, int slot) -> Slot& { return n.disk[slot]; };
    auto damage = [&](Bytes b, const Rec& rec, const str& k, Rng& r, const Slot& sl, const Node& nd) -> Bytes {
        size_t cs = rec.type >= SK ? 32 : 48, nc = b.size() / cs; bool le = rec.type <= FP12 ? rec.enc == 1 : rec.type == SCLE || ((rec.type == TG1 || rec.type == TG2) && (rec.enc == AFFLE || rec.enc == JACLE)); bool comp = (rec.type == TG1 || rec.type == TG2) && rec.enc == COMP;
        auto getc = [&](size_t i) { Bytes c(&b[i*cs], &b[i*cs] + cs); if(le) c = Bytes(c.rbegin(), c.rend()); return c; };
        auto setc = [&](size_t i, Bytes c) { c.resize(cs); if(le) c = Bytes(c.rbegin(), c.rend()); memcpy(&b[i*cs], c.data(), cs); };
        static const Bytes pbe = [] { Bytes o(48); for(int i = 0; i < 48; i++) o[47-i] = ref::PP[i/8] >> (8*(i%8)); return o; }();
        Bytes m = cs == 48 ? pbe : ref::be32(ref::Rr);
        auto addb = [&](Bytes x, const Bytes& y) { int c = 0; for(int i = (int)x.size() - 1; i >= 0; i--) { c += x[i] + y[i]; x[i] = c; c >>= 8; } return x; };
        if(b.empty()) return k == "extend" ? r.bytes(2) : b;
        if(k == "flip") for(int i = r.range(1, 12); i > 0; i--) b[r.below(b.size())] ^= 1 << r.below(8);
        else if(k == "flip1") b[r.below(b.size())] ^= 1 << r.below(8);
        else if(k == "torn") { size_t c = r.below(b.size()); for(size_t i = c; i < b.size(); i++) b[i] = i < sl.prev.size() ? sl.prev[i] : 0; }
        else if(k == "stale") { b = sl.prev; }
        else if(k == "zero") { size_t c = r.p(.3) ? 0 : r.below(b.size()); for(size_t i = c; i < b.size() && i < c + 64; i++) b[i] = 0; if(r.p(.2)) for(auto& x : b) x = 0; }
        else if(k == "misdirect") { vec<const Slot*> o; for(auto& e : nd.disk) if(&e.second != &sl && e.second.used) o.push_back(&e.second); if(!o.empty()) b = o[r.below(o.size())]->durable; }
        else if(k == "trunc") { b.resize(r.below(b.size() + 1)); }
        else if(k == "extend") { Bytes e = r.bytes(r.range(1, 3)); b.insert(b.end(), e.begin(), e.end()); }
        else if(k == "ones") { for(auto& x : b) x = 0xff; }
        else if(k == "random") { b = r.bytes(b.size()); if(comp) b[0] = (b[0] & 0x1f) % 0x1b | 0x80 | (r.p(.5) ? 0x20 : 0); else for(size_t i = 0; i < nc; i++) { Bytes c = getc(i); if(cs == 48) c[0] %= 0x1b; setc(i, c); } }
        else if(k == "flags") { size_t at = le ? b.size() - 1 : 0; b[at] = (b[at] & 0x1f) | r.below(8) << 5; }
        else if(k == "infinity") { std::fill(b.begin(), b.end(), 0); static const uint8_t f[] = {0xC0, 0xE0, 0x80, 0x40, 0xA0, 0x00, 0xC1, 0xD0}; b[0] = f[r.below(8)]; if(r.p(.4)) b[r.below(b.size())] |= 1 << r.below(8); }
        else if(nc) {
            size_t i = r.below(nc); uint8_t fl = comp ? b[0] & 0xe0 : 0;
            if(k == "addp") { if(comp) b[0] &= 0x1f; setc(i, addb(getc(i), m)); if(r.p(.1)) for(size_t j = 0; j < nc; j++) setc(j, addb(getc(j), m)); if(comp) b[0] |= fl; }
            else if(k == "setcoord") { Bytes c(cs); switch(r.below(7)) { case 0: break; case 1: c = m; c[cs-1] -= 1; break; case 2: c = m; break; case 3: c = m; c[cs-1] += 1; break; case 4: c = addb(m, m); if(cs == 48) c[cs-1] -= r.below(2); break; case 5: for(auto& x : c) x = 0xff; if(comp) c[0] = 0x1f; break; default: c[cs-1] = r.below(9); } setc(i, c); if(comp) b[0] = (b[0] & 0x1f) | fl; }
            else if(k == "swapcoord") { size_t j = r.below(nc); Bytes x = getc(i), y = getc(j); setc(i, y); setc(j, x); }
            else if(k == "ypp") { Bytes one(cs); one[cs-1] = 1 + r.below(3); setc(i, addb(getc(i), one)); }
            else if(k == "negy") { size_t half = rec.type == TG2 ? 2 : 1; Rec t = rec; if(comp) b[0] ^= 0x20; else if((rec.type == TG1 || rec.type == TG2) && nc >= 2*half) for(size_t j = half; j < 2*half; j++) { Bytes c = getc(j); Fp f; if(ref::rdF(c.data(), f)) { f.neg().be(c.data()); setc(j, c); } } }
            else if(k == "endian") { if(r.p(.5)) for(size_t j = 0; j < nc; j++) { Bytes c(&b[j*cs], &b[j*cs] + cs); std::reverse(c.begin(), c.end()); memcpy(&b[j*cs], c.data(), cs); } else std::reverse(b.begin(), b.end()); }
        }
        return b; };
    for(auto& line : plan) {
        Ln l(line);
        if(l.verb == "put") S.at(l.n("t"), [&, l] { Node& n = N[l.n("node") % nn]; Rec c = makeRec(l); Bytes want = refEncRec(c), got = libWrite(*n.h, c, l.n("s")); R.see(got.data(), got.size()); R.add(str("write_") + tname[c.type]);
            if(got != want) R.fail("wrong-encoding", fmt("host %s %s enc %d raw %d: wrote %s expected %s", n.h->name.c_str(), tname[c.type], c.enc, c.raw, hex(got).substr(0, 100).c_str(), hex(want).substr(0, 100).c_str()));
            c.size = got.size(); Slot& s = disk(n, l.n("slot")); s.prev = s.dirty ? s.cached : s.durable; s.cached = got; s.dirty = true; s.rec = c; s.used = true; if(l.n("sync")) { s.durable = s.cached; s.dirty = false; } });
        else if(l.verb == "sync") S.at(l.n("t"), [&, l] { for(auto& e : N[l.n("node") % nn].disk) if(e.second.dirty) { e.second.durable = e.second.cached; e.second.dirty = false; } });
        else if(l.verb == "crash") S.at(l.n("t"), [&, l] { Rng r(l.n("s"), 63); R.add("fault_crash_restart"); for(auto& e : N[l.n("node") % nn].disk) { Slot& s = e.second; if(!s.dirty) continue; s.dirty = false; if(r.p(.4)) { R.add("fault_lost_write"); continue; }
            R.add("fault_torn_write"); Bytes o = s.cached; for(size_t i = 0; i < o.size(); i += 16) if(r.p(.5)) for(size_t j = i; j < i + 16 && j < o.size(); j++) o[j] = j < s.durable.size() ? s.durable[j] : 0; s.durable = o; } });
        else if(l.verb == "rot") S.at(l.n("t"), [&, l] { Node& n = N[l.n("disk") % nn]; auto it = n.disk.find(l.n("slot")); if(it == n.disk.end() || !it->second.used) return; Slot& s = it->second; Rng r(l.n("s"), 64); str k = l.s("kind");
            Bytes before = s.dirty ? s.cached : s.durable; Bytes b = damage(before, s.rec, k, r, s, n); R.add("fault_" + k); if(b == before) R.add("fault_without_effect"); s.prev = before; (s.dirty ? s.cached : s.durable) = b; });
        else if(l.verb == "read") S.at(l.n("t"), [&, l] { Node& d = N[l.n("disk") % nn]; Node& n = N[l.n("node") % nn]; auto it = d.disk.find(l.n("slot")); if(it == d.disk.end() || !it->second.used) return; Slot& s = it->second; Rec& c = s.rec; bool check = l.n("check");
            Bytes b = s.dirty ? s.cached : s.durable; bool var = c.type == HEXV; if(!var) b.resize(c.type == HEX48 ? 98 : c.size);
            AB a; a.M(b); str op; bool validating = check; int vi = 0;
            switch(c.type) { case TG1: op = decOp(1, c.enc); if(c.enc == COMP) validating = true; break; case TG2: op = decOp(2, c.enc); if(c.enc == COMP) validating = true; break;
                case SK: op = "sk_from_bytes"; check = false; validating = true; break; case SCBE: case SCLE: op = "scalar_bytes"; a.S(c.s); vi = c.type == SCBE ? 2 : 3; validating = false; break; case HEXV: op = "hexToBytes"; validating = false; break; case HEX48: op = "hex48"; validating = false; break;
                default: op = str(tname[c.type]) + "_from" + (c.enc ? "LE" : "BE"); }
            a.I(c.type == SK ? 0 : check).I(c.raw); if(l.n("al")) a.M(Bytes(1));
            auto exp = refRead(c, b); Res x = run(*n.h, op, a); R.add(str("read_") + tname[c.type]); R.add(exp ? "medium_holds_a_value" : "medium_damaged");
            str got = c.type == SCBE || c.type == SCLE ? refVal(ref::frombe32(x.bytes(vi).data())) : x.canon(); R.see(got);
            bool rejected = c.type == SK ? x.bytes() == Bytes(32) : x.none();
            R.state(mix(c.type * 64 + c.enc * 8 + c.raw * 4 + check * 2 + rejected) ^ fnv(b.data(), b.size() < 4 ? b.size() : 4) % 256);
            str where = fmt("host %s %s enc %d raw %d check %d bytes %s", n.h->name.c_str(), tname[c.type], c.enc, (int)c.raw, (int)check, hex(b).substr(0, 600).c_str());
            if(exp) { if(got != *exp) R.fail(rejected ? "stored-value-rejected" : "wrong-value-read", where + ": got " + got.substr(0, 120) + " expected " + exp->substr(0, 120)); R.add("accepted"); }
            else if(validating) { if(!rejected) R.fail("damaged-bytes-accepted", where + ": got " + got.substr(0, 120)); R.add("rejected"); }
            else R.add("not_judged");
            // a value that was read is written again, by the node that read it
            if(exp && (c.type == TG1 || c.type == TG2)) { AB e; (c.type == TG1 ? e.p1 : e.p2).push_back(x.bytes()); e.I(c.raw && c.enc != COMP); Res y = run(*n.h, encOp(c.type == TG1 ? 1 : 2, c.enc), e); if(y.bytes() != b) R.fail("rewritten-differently", where + ": " + hex(y.bytes()).substr(0, 200));
                AB o; (c.type == TG1 ? o.p1 : o.p2).push_back(x.bytes()); Res z = run(*n.h, c.type == TG1 ? "g1_props" : "g2_props", o); if(z.boolean(1) != 1) R.fail("decoded-off-curve", where); } });
    }
    S.run(R);
}
Reg reg({"C06", gen, exec, {"asm", "asmnx", "port"}, [] { pool(); }});
}
