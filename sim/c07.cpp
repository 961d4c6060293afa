// C07: nodes announce keys with proofs of possession and send signed messages over a faulty network.
#include "net.hpp"
namespace {
struct Packet { bool ann = false; int from = 0, to = 0, enc = 0; bool chk = true; Bytes pk, msg, sig; };
Plan gen(u64 seed, bool thorough) {
    Rng r(seed, 7); Plan p; int nodes = r.range(2, 4), n = r.range(5, thorough ? 26 : 16);
    p.push_back(fmt("!world seed=%llu nodes=%d twin=%d", (unsigned long long)r.next() % 100000000, nodes, (int)r.below(4)));
    u64 t = 0; int id = 0;
    double fr = r.p(.2) ? 0 : r.p(.4) ? .9 : .6;
    // two payloads are reused within a run, so that replays are replays of something
    u64 m1 = r.next() % 10000, m2 = r.next() % 10000;
    for(int i = 0; i < n; i++) {
        t += r.below(2000);
        int from = r.below(nodes), to = r.below(nodes);
        bool ann = i < nodes ? true : r.p(.15); if(i < nodes) from = i;
        if(r.p(.02)) { p.push_back(fmt("huge t=%llu node=%d s=%llu", (unsigned long long)t, (int)r.below(nodes), (unsigned long long)r.next() % 1000000)); continue; }
        if(r.p(.06)) { p.push_back(fmt("domain t=%llu node=%d s=%llu", (unsigned long long)t, (int)r.below(nodes), (unsigned long long)r.next() % 1000000)); continue; }
        if(r.p(.06)) { p.push_back(fmt("crash t=%llu node=%d", (unsigned long long)t, (int)r.below(nodes))); continue; }
        u64 m = r.p(.35) ? m1 : r.p(.4) ? m2 : r.p(.15) ? 1000000 + from : r.next() % 1000000;   // >= 1000000: the signer's own proof-of-possession text
        p.push_back(fmt("%s id=%d t=%llu from=%d to=%d m=%llu enc=%d chk=%d delay=%d", ann ? "announce" : "send", id, (unsigned long long)t, from, ann && i < nodes ? -1 : to, (unsigned long long)m, (int)r.below(NENC), (int)r.p(.6), (int)r.below(5000)));
        if(r.p(fr) && (i >= nodes || r.p(.3))) for(int k = r.p(.15) ? 2 : 1; k > 0; k--) {
            static const char* kinds[] = {"flipsig", "flipmsg", "flippk", "truncmsg", "extmsg", "drop", "dup", "delay", "replaysig", "replaymsg", "replaypk", "swapsender", "negsig", "dblsig", "idsig", "torssig", "torspk", "idpk", "negpk", "offsig", "offpk", "rerep", "addsig", "shiftH", "garbagesig", "prefixmsg", "popassig", "tinypk", "tinypk", "tinysig"};
            p.push_back(fmt("fault id=%d kind=%s s=%llu src=%d", id, kinds[r.below(sizeof kinds / sizeof *kinds)], (unsigned long long)r.next() % 1000000, (int)r.below(id + 1)));
        }
        id++;
    }
    return p;
}
void exec(const Plan& plan, Report& R) {
    const Pool& P = pool();
    Ln w(plan[0]); Rng wr(w.n("seed"), 1); int nodes = w.n("nodes", 2);
    struct Node { Sc sk; G1 pk; const Host* h; std::map<int,Bytes> reg; Bytes disk; std::map<int,Bytes> regDisk; };
    vec<Node> N(nodes); std::map<str,Sc> dlog;
    auto know = [&](const Sc& k, const G1& p) { dlog[hex(ref::affbe(p))] = k; dlog[hex(ref::affbe(p.neg()))] = ref::negr(k); };
    for(int i = 0; i < nodes; i++) {
        N[i].h = &hostAt(wr.next());
        if(wr.p(.6)) { int k = wr.below(Pool::N); N[i].sk = P.k[k]; N[i].pk = P.p1[k]; } else { N[i].sk = randSk(wr); N[i].pk = ref::gen1().mul(N[i].sk).norm(); }
        if(i == 1 && w.n("twin") == 1) { N[1].sk = N[0].sk; N[1].pk = N[0].pk; }
        if(i == 1 && w.n("twin") == 2) { N[1].sk = ref::negr(N[0].sk); N[1].pk = N[0].pk.neg(); }
        know(N[i].sk, N[i].pk); know(ref::addr(N[i].sk, N[i].sk), N[i].pk.dbl());
        AB a; a.S(N[i].sk); Res s = call(*N[i].h, "public_key", a); R.add("lib_calls");
        if(s.canon() != refVal(N[i].pk)) R.fail("wrong-public-key", fmt("host %s node %d: ", N[i].h->name.c_str(), i) + s.canon().substr(0, 120));
        N[i].disk = ref::be32(N[i].sk);
    }
    std::map<int,vec<Ln>> faults; for(auto& l : plan) { Ln x(l); if(x.verb == "fault") faults[x.n("id")].push_back(x); }
    std::map<int,Packet> sent; Sim S;
    auto decide = [&](const Host& h, const Packet& k, const str& op, const AB& a, const std::optional<G1>& pk, const std::optional<G2>& sg, const Bytes& msg, const char* dst) {
        Res s = call(h, op, a); R.add("lib_calls"); R.add("decisions");
        if(!s.ok() || s.boolean() < 0) R.fail("no-decision", h.name + " " + op + " " + s.canon());
        if(!s.intact) R.fail("arguments-modified", op);
        int exp = -1; str why;
        if(!pk->oncurve() || pk->inf() || !sg->oncurve()) { exp = 0; why = "point off curve or identity key"; }
        else {
            auto d = dlog.find(hex(ref::affbe(*pk)));
            if(d == dlog.end()) { if(!pk->subgroup()) { exp = 0; why = "key outside group"; } else { R.add("undecidable"); return s.boolean(); } }
            else { G2 e = hashOf(msg, dst).mul(d->second); exp = e.eq(*sg); why = exp ? "genuine" : "not the signature of this key on these bytes"; }
        }
        R.add(exp ? "expected_accept" : "expected_reject"); R.see(s.canon()); R.see(k.sig.data(), k.sig.size()); R.see(msg.data(), msg.size()); R.see(S.now);
        R.state(mix(exp * 2 + s.boolean()) ^ mix(hstr(op + why)) ^ mix(k.enc * 4 + k.chk + msg.size() * 131));
        if(s.boolean() != exp) R.fail(exp ? "genuine-rejected" : "forgery-accepted", fmt("host %s %s t=%llu from %d to %d enc %s: ", h.name.c_str(), op.c_str(), (unsigned long long)S.now, k.from, k.to, encName(k.enc)) + why);
        return s.boolean();
    };
    std::function<void(const Packet&, int)> deliver = [&](const Packet& k, int to) {
        Node& n = N[to]; const Host& h = *n.h;
        // both the checked and the unchecked decoders are used by receivers; verification must cope with either
        auto sj = libDec(h, R, 2, k.sig, k.enc, k.chk); auto sr = refDec<Fp2>(k.sig, k.enc, k.chk);
        if(k.ann) {
            auto pj = libDec(h, R, 1, k.pk, k.enc, k.chk); auto pr = refDec<Fp>(k.pk, k.enc, k.chk);
            if(!sj || !pj) { R.add("undecodable"); if(sr && pr && !sj != !sr) R.fail("genuine-encoding-rejected", encName(k.enc)); if(sr && pr) R.fail("genuine-encoding-rejected", encName(k.enc)); return; }
            if(!sr || !pr) { R.add("unreduced"); if(k.chk || k.enc == COMP) R.fail("invalid-encoding-accepted", encName(k.enc)); return; }
            AB a; a.p1.push_back(*pj); a.p2.push_back(*sj);
            // an off-curve key has no unique affine form to hash; the expectation is rejection in any case
            int d = decide(h, k, "pop_verify", a, pr, sr, pr->oncurve() ? ref::popmsg(*pr) : Bytes{}, ref::POP_DST);
            if(d == 1) { n.reg[k.from] = *pj; n.regDisk[k.from] = libEnc(h, R, 1, *pj, COMP); }
        } else {
            if(!n.reg.count(k.from)) { R.add("unknown_sender"); return; }
            if(!sj) { R.add("undecodable"); if(sr) R.fail("genuine-encoding-rejected", encName(k.enc)); return; }
            if(!sr) { R.add("unreduced"); if(k.chk || k.enc == COMP) R.fail("invalid-encoding-accepted", encName(k.enc)); return; }
            AB a; Bytes pkb = k.pk.empty() ? n.reg[k.from] : Bytes{};
            std::optional<G1> pr;
            if(!k.pk.empty()) { auto pj = libDec(h, R, 1, k.pk, k.enc, k.chk); pr = refDec<Fp>(k.pk, k.enc, k.chk); if(!pj || !pr) { R.add("undecodable"); return; } pkb = *pj; }
            else pr = ref::fromjac<Fp>(pkb, false);
            a.p1.push_back(pkb); a.M(k.msg); a.p2.push_back(*sj);
            decide(h, k, "verify", a, pr, sr, k.msg, ref::SIG_DST);
        }
    };
    for(auto& line : plan) {
        Ln l(line);
        if(l.verb == "huge") { int nd = l.n("node"); u64 sd = l.n("s"); S.at(l.n("t"), [&, nd, sd] {     // a message whose length does not fit 31 or 32 bits
            Node& n = N[nd % nodes]; const Pool& p = pool(); Rng q(sd, 79); u64 len = (1ull << (32 + q.below(3))) * q.range(1, 3) + q.below(2000); int how = q.below(4); AB a; a.I(len).I(how).S(p.k[0]).P(p.p1[0]).Q(p.sig[0][0]);
            Res s = call(*n.h, "huge_message", a); R.add("lib_calls"); R.add("huge_messages"); R.state(mix(len) ^ how); if(s.st) R.fail("failed", "huge message: " + s.canon());
            if(s.canon().find("B:01") == str::npos) R.fail("message-cut-short", fmt("of a message of %llu bytes only the beginning is read (%s)", (unsigned long long)len, how == 0 ? "fromMessage" : how == 1 ? "sign" : how == 2 ? "verify" : "xmd_sh256")); }); continue; }
        if(l.verb == "domain") { int nd = l.n("node"); u64 sd = l.n("s"); S.at(l.n("t"), [&, nd, sd] {     // purposes of the application's own, almost equal ones among them
            Rng q(sd, 8); Node& n = N[nd % nodes]; Bytes m = q.bytes(q.p(.2) ? 0 : q.below(100)), d = q.bytes(q.p(.3) ? q.range(240, 255) : q.p(.1) ? 0 : q.range(1, 60)); if(q.p(.4)) for(auto& c : d) c = 'A' + c % 26;
            for(int k = q.range(1, 2); k >= 0; k--) { AB a; a.M(m).M(d); Res s = call(*n.h, "from_message", a); R.add("lib_calls"); R.add("domains"); R.state(d.size() * 3 + std::count(d.begin(), d.end(), 0)); str e = refVal(ref::hash2(m, d)); if(s.canon() != e) R.fail("wrong-hash", fmt("host %s: %zu bytes hashed under the tag %s (%zu bytes)", n.h->name.c_str(), m.size(), hex(d).c_str(), d.size()));
                switch(q.below(6)) { case 0: if(d.size()) d[q.below(d.size())] ^= 1 << q.below(8); break; case 1: if(d.size() < 255) d.push_back(0); break; case 2: if(d.size()) d[q.below(d.size())] = 0; break; case 3: if(d.size()) { d.insert(d.begin(), d[0]); d.pop_back(); } break; case 4: if(d.size() > 1) { m.push_back(d[0]); d.erase(d.begin()); } break; default: if(d.size()) d.pop_back(); } } }); }
        else if(l.verb == "crash") { int nd = l.n("node"); S.at(l.n("t"), [&, nd] {
            Node& n = N[nd]; R.add("fault_crash_restart"); n.reg.clear();
            AB a; a.M(n.disk).I(0); Res s = call(*n.h, "sk_from_bytes", a); R.add("lib_calls"); if(s.canon() != refVal(n.sk)) R.fail("key-lost-in-restart", n.h->name); n.sk = s.sc();
            for(auto& e : n.regDisk) { auto p = libDec(*n.h, R, 1, e.second, COMP, true); if(!p) R.fail("registered-key-lost-in-restart", n.h->name); n.reg[e.first] = *p; } }); continue; }
        if(l.verb != "send" && l.verb != "announce") continue;
        int id = l.n("id");
        S.at(l.n("t"), [&, l, id] {
            Packet k; k.ann = l.verb == "announce"; k.from = l.n("from") % nodes; k.to = (int)l.n("to"); k.enc = l.n("enc"); k.chk = l.n("chk", 1);
            Node& n = N[k.from]; R.add(k.ann ? "announcements" : "messages"); G2 want;
            if(k.ann) { AB a; a.S(n.sk); Res s = call(*n.h, "pop_prove", a); R.add("lib_calls"); k.msg = ref::popmsg(n.pk); want = hashOf(k.msg, ref::POP_DST).mul(n.sk);
                if(s.canon() != refVal(want)) R.fail("wrong-proof", n.h->name + " " + s.canon().substr(0, 80));
                k.sig = libEnc(*n.h, R, 2, s.bytes(), k.enc); k.pk = libEnc(*n.h, R, 1, ref::jacbe(n.pk), k.enc); }
            else { u64 m = l.n("m"); k.msg = m >= 1000000 ? ref::popmsg(n.pk) : msgOf(m); AB a; a.S(n.sk).M(k.msg); BlsHooks hk{}; hk.guard = guardAlloc; Res s = call(*n.h, "sign", a, &hk); R.add("lib_calls"); want = hashOf(k.msg, ref::SIG_DST).mul(n.sk);
                if(s.canon() != refVal(want)) R.fail("wrong-signature", fmt("host %s message length %zu ", n.h->name.c_str(), k.msg.size()) + s.canon().substr(0, 80));
                k.sig = libEnc(*n.h, R, 2, s.bytes(), k.enc); }
            sent[id] = k;
            u64 delay = l.n("delay"); bool drop = false; vec<u64> copies{delay};
            for(auto& f : faults[id]) {
                str kd = f.s("kind"); Rng r(f.n("s"), 3); Packet* src = sent.count(f.n("src")) ? &sent[f.n("src")] : nullptr;
                auto sg = [&] { auto x = refDec<Fp2>(k.sig, k.enc, false); return x ? *x : want; }; auto pg = [&] { auto x = refDec<Fp>(k.pk, k.enc, false); return x ? *x : n.pk; };
                auto setS = [&](const G2& s) { k.sig = refEnc(s, k.enc); }; auto setP = [&](const G1& s) { k.pk = refEnc(s, k.enc); };
                auto uncompress = [&] { if(k.enc == COMP) { auto s = sg(); auto p = k.ann ? pg() : G1{}; k.enc = AFFBE; setS(s); if(k.ann) setP(p); } k.chk = false; };
                bool hit = true;
                if(kd == "flipsig" && k.sig.size()) k.sig[r.below(k.sig.size())] ^= 1 << r.below(8);
                else if(kd == "flipmsg" && k.msg.size() && !k.ann) k.msg[r.below(k.msg.size())] ^= 1 << r.below(8);
                else if(kd == "flippk" && k.pk.size()) k.pk[r.below(k.pk.size())] ^= 1 << r.below(8);
                else if(kd == "truncmsg" && k.msg.size() && !k.ann) k.msg.resize(r.p(.5) ? k.msg.size() - 1 : r.below(k.msg.size()));
                else if(kd == "extmsg" && !k.ann) { Bytes x = r.bytes(1 + r.below(3)); if(r.p(.5)) x.assign(x.size(), 0);
                    if(r.p(.5)) { u64 b = r.pick(vec<u64>{8, 16, 32, 64, 128}), n = k.msg.size(), f = b - n % b; static const uint8_t tail[] = {0, 0x80, 0x20, 0x0a, 0xff, 1}; uint8_t c = r.p(.3) && n ? k.msg.back() : r.p(.2) ? f : tail[r.below(6)];   // filled up to a block, in the usual ways
                        x.assign(f, c); int how = r.below(5); if(how == 1) { x.assign(f, 0); x[0] = c ? c : 0x80; } else if(how == 2) { x.assign(f, 0); x.back() = f; } else if(how == 3) { size_t z = f < 9 ? f + 64 : f; x.assign(z, 0); x[0] = 0x80; for(int i = 0; i < 8; i++) x[z - 1 - i] = n * 8 >> 8 * i; } R.add("message_padded"); }
                    k.msg = ref::cat(k.msg, x); }
                else if(kd == "prefixmsg" && !k.ann) k.msg = ref::cat(r.bytes(1), k.msg);
                else if(kd == "drop") drop = true;
                else if(kd == "dup") copies.push_back(delay + r.below(20000));
                else if(kd == "delay") copies[0] += r.below(50000);
                else if(kd == "replaysig" && src) { auto x = refDec<Fp2>(src->sig, src->enc, false); if(x) setS(*x); }
                else if(kd == "replaymsg" && src && !k.ann) k.msg = src->msg;
                else if(kd == "replaypk" && src && src->ann && k.ann) { auto x = refDec<Fp>(src->pk, src->enc, false); if(x) setP(*x); }
                else if(kd == "swapsender") k.from = (k.from + 1 + r.below(nodes)) % nodes;
                else if(kd == "negsig") setS(sg().neg()); else if(kd == "dblsig") setS(sg().dbl());
                else if(kd == "idsig") setS(G2{}); else if(kd == "torssig") setS(sg() + r.pick(P.tors2));
                else if(kd == "torspk" && k.ann) setP(pg() + r.pick(P.tors1));
                else if(kd == "torspk") k.pk = refEnc(n.pk + r.pick(P.tors1), k.enc);
                else if(kd == "tinypk") { k.pk = refEnc(r.pick(P.tors1), k.enc); if(r.p(.6)) setS(r.p(.8) ? G2{} : r.pick(P.tors2)); }      // a key of small order, mostly with a signature that pairs trivially with it
                else if(kd == "tinysig") setS(r.pick(P.tors2));
                else if(kd == "idpk") { k.pk = refEnc(G1{}, k.enc); if(r.p(.7)) setS(G2{}); }
                else if(kd == "negpk") k.pk = refEnc((k.ann ? pg() : n.pk).neg(), k.enc);
                else if(kd == "offsig") { uncompress(); setS(off2(r, sg())); }
                else if(kd == "offpk") { uncompress(); k.pk = refEnc(off1(r, k.ann ? pg() : n.pk), k.enc); }
                else if(kd == "rerep") { auto s = sg(); auto p = k.ann ? pg() : G1{}; if(k.enc == COMP || k.enc == AFFBE || k.enc == AFFLE) k.enc = r.p(.5) ? JACBE : JACLE; if(s.oncurve()) setS(rerep(r, s)); else setS(s); if(k.ann) setP(p.oncurve() ? rerep(r, p) : p); else if(!k.pk.empty()) k.pk.clear(); }
                else if(kd == "addsig" && src) { auto x = refDec<Fp2>(src->sig, src->enc, false); if(x && x->oncurve() && sg().oncurve()) setS(sg() + *x); }
                else if(kd == "shiftH") setS(sg() + hashOf(k.msg, ref::SIG_DST));
                else if(kd == "garbagesig") k.sig = r.bytes(k.sig.size());
                else if(kd == "popassig" && !k.ann) setS(hashOf(ref::popmsg(n.pk), ref::POP_DST).mul(n.sk));
                else hit = false;
                if(hit) R.add("fault_" + kd);
                // re-encoding above drops the representation of an unrelated key field
                if(!k.pk.empty() && k.pk.size() != encSize(1, k.enc)) { if(k.ann) k.pk = refEnc(n.pk, k.enc); else k.pk.clear(); }
                if(k.sig.size() != encSize(2, k.enc)) k.sig = refEnc(want, k.enc);
            }
            if(drop) return;
            for(u64 c : copies) { if(k.to < 0) { for(int d = 0; d < nodes; d++) S.at(S.now + c + d, [&, k, d] { Packet q = k; q.to = d; deliver(q, d); }); } else S.at(S.now + c, [&, k] { deliver(k, k.to % nodes); }); }
        });
    }
    S.run(R);
    // liveness once faults stop: every node can still make every other accept a fresh signature
    for(int i = 0; i < nodes; i++) { Packet k; k.from = i; k.to = (i + 1) % nodes; k.enc = COMP; k.msg = msgOf(w.n("seed") + i);
        AB a; a.S(N[i].sk).M(k.msg); Res s = call(*N[i].h, "sign", a); AB b; b.P(N[i].pk).M(k.msg); b.p2.push_back(s.ok() ? s.bytes() : Bytes(288));
        Res v = call(*N[k.to].h, "verify", b); R.add("lib_calls", 2); R.see(v.canon()); if(v.canon() != refB(1)) R.fail("genuine-rejected", "fresh exchange after the last fault"); }
}
Reg reg({"C07", gen, exec, {"asm", "asmnx", "port"}, [] { pool(); }});
}
