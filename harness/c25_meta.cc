// C25: op metadata along a yarn.
#include <botan/sha2_64.h>
#include "rdtx.hpp"
#include "ron/opmeta.hpp"
using namespace std;
using mc::Gen;
using ref::I; using ref::Q; using ref::S;

static void be(string& s, uint64_t x) { for (int i = 7; i >= 0; i--) s += char(x >> (8 * i)); }
static string sha(const string& s) { Botan::SHA_512_256 h; h.update((const uint8_t*)s.data(), s.size()); string r(32, 0); h.final((uint8_t*)&r[0]); return r; }
static string op_hash(const ref::Op& o, const string& prev, const string& rf) {
    string s;
    be(s, o.id.v); be(s, o.id.o); s += prev;
    be(s, o.ref.v); be(s, o.ref.o); s += rf;
    for (auto& a : o.a) { be(s, uint64_t(a.s.size()) << 32); be(s, uint64_t(8) << 60); s += ref::utf8(a.s); }
    return sha(s);
}
static string id_hash(ref::U u) { string s; be(s, u.v); be(s, u.o); return sha(s); }

struct M { ref::U id, rdt, obj; string hash{string(32, 0)}; uint64_t prev{0}, chain{0}; };
static string compare(const M& m, const ron::OpMeta& o, const string& at) {
    if (rx::u(o.id) != m.id) return at + ": id " + o.id.str();
    if (rx::u(o.rdt) != m.rdt) return at + ": type " + o.rdt.str() + " not " + ref::text(m.rdt);
    if (rx::u(o.object) != m.obj) return at + ": object " + o.object.str() + " not " + ref::text(m.obj);
    if (o.hash.bits_ != m.hash) return at + ": hash";
    if (o.hash.known_bits() != 256) return at + ": the hash is not all known";
    if (o.prev.as_u64 != m.prev) return at + ": previous event";
    if (o.chain.as_u64 != m.chain) return at + ": chain " + o.chain_id().str();
    if (o.is_head() != (m.chain == m.id.v)) return at + ": is_head()";
    ref::U c = m.id; c.v = m.chain;
    if (rx::u(o.chain_id()) != c) return at + ": chain_id() " + o.chain_id().str();
    return "";
}
// "scheme text letters": the yarn; L R create an object, digits ref the k-th event back (0 the tip),
// a b ref events of another yarn (of a lww and of an rga object), c an event of a third
// yarn that has the very timestamp of the own tip
static string check(const string& t) {
    auto w = mc::split(t, ' ');
    int sc = stoi(w[0]), form = stoi(w[1]);
    vector<M> ms;
    vector<ron::OpMeta> metas;
    map<ref::U, M> all;
    map<ref::U, ron::OpMeta> real;
    // the other yarn
    ref::U fb[2];
    {
        ron::OpMeta tip;
        M m;
        for (int i = 0; i < 2; i++) {
            ref::Op o;
            o.id = rdtref::event(10 + i, "Z");
            o.ref = rdtref::name(i ? "rga" : "lww");
            ron::Op op = rx::make(o);
            tip = ron::OpMeta{op, tip};
            M n;
            n.id = n.obj = o.id; n.rdt = o.ref; n.prev = m.id.v; n.chain = o.id.v;
            n.hash = op_hash(o, m.hash, id_hash(o.ref));
            string e = compare(n, tip, "the other yarn");
            if (!e.empty()) return e;
            m = n;
            all.emplace(o.id, m); real.emplace(o.id, tip);
            fb[i] = o.id;
        }
    }
    M m;
    ron::OpMeta tip;
    vector<ref::U> ids;
    mc::state(t); mc::trace();
    for (size_t i = 0; i < w[2].size(); i++) {
        char c = w[2][i];
        ref::Op o;
        uint64_t v = sc == 0 ? 64 + i : sc == 1 ? 64 * (i + 1) : 64 + i * i;
        o.id = rdtref::event(v, "A");
        bool create = c == 'L' || c == 'R';
        if (create) o.ref = rdtref::name(c == 'L' ? "lww" : "rga");
        else if (c == 'a' || c == 'b') o.ref = fb[c - 'a'];
        else if (c == 'c') {
            if (ids.empty()) return "";
            ref::Op x;
            x.id = o.ref = rdtref::event(m.id.v, "Y");
            x.ref = rdtref::name("mx");
            ron::Op op = rx::make(x);
            ron::OpMeta xm{op, ron::OpMeta{}};
            M n;
            n.id = n.obj = x.id; n.rdt = x.ref; n.chain = x.id.v;
            n.hash = op_hash(x, string(32, 0), id_hash(x.ref));
            string e = compare(n, xm, "the third yarn");
            if (!e.empty()) return e;
            all[x.id] = n;
            real.erase(x.id);
            real.emplace(x.id, xm);
        }
        else { size_t k = c - '0'; if (k >= ids.size()) return ""; o.ref = ids[ids.size() - 1 - k]; }
        if (!create) o.a = {S(string(1, 'p' + i % 10)), S("xy")};
        if (i > 1) mc::nontrivial();
        // whether it continues the chain, and only then
        ron::Op op = rx::make(o);
        rx::Builder b;
        b.AppendOp(op);
        rx::Frame f = b.Release();
        rx::Cursor cur{f};
        cur.Next();
        if (!ids.empty()) {
            bool next = o.ref == m.id;
            if (tip.is_next(op) != next || tip.is_next(cur) != next) return t + " op " + to_string(i) + ": is_next()";
            for (int wrong = 0; wrong < 4; wrong++) {
                ref::Op x = o;
                x.ref = m.id;
                if (wrong == 0) x.id.o ^= 1;               // another yarn
                if (wrong == 1) x.id = m.id;                // not later
                if (wrong == 2) x.id.v = m.id.v - 1;
                if (wrong == 3) x.id.o &= ref::M60;         // not an event
                if (tip.is_next(rx::make(x))) return t + " op " + to_string(i) + ": is_next() of " + ref::show(x);
                bool chk = wrong == 3;
                if (tip.is_check(rx::make(x)) != chk) return t + " op " + to_string(i) + ": is_check() of " + ref::show(x);
            }
            ref::Op x = o;
            x.ref = m.id; x.ref.v ^= 1;
            x.id.o &= ref::M60;
            if (tip.is_check(rx::make(x))) return t + " op " + to_string(i) + ": is_check() of " + ref::show(x);
        }
        M n;
        n.id = o.id; n.prev = m.id.v;
        if (create) {
            n.obj = o.id; n.rdt = o.ref; n.chain = o.id.v;
            n.hash = op_hash(o, m.hash, id_hash(o.ref));
            tip = form ? ron::OpMeta{cur, tip} : ron::OpMeta{op, tip};
        } else {
            if (ids.empty()) return "";
            const M& rm = all[o.ref];
            n.obj = rm.obj; n.rdt = rm.rdt;
            n.chain = o.ref == m.id ? m.chain : o.id.v;
            n.hash = op_hash(o, m.hash, rm.hash);
            ron::OpMeta refd = real.find(o.ref)->second;
            ron::Status ok = form ? tip.Next(cur, refd) : tip.Next(op, refd);
            if (!ok) return t + ": Next() says " + ok.str();
        }
        mc::transition();
        m = n;
        string e = compare(m, tip, t + " op " + to_string(i));
        if (!e.empty()) return e;
        ids.push_back(o.id);
        all[o.id] = m;
        real.erase(o.id);
        real.emplace(o.id, tip);
        // save and load
        rx::Builder sb;
        tip.Save(sb);
        rx::Frame sf = sb.Release();
        rx::Cursor lc{sf};
        if (!lc.Next()) return t + ": the saved record is unreadable: " + sf.data();
        ron::OpMeta l;
        if (!l.Load(lc)) return t + ": the saved record does not load: " + sf.data();
        if (rx::u(l.id) != m.id || rx::u(l.object) != m.obj || rx::u(l.rdt) != m.rdt || l.hash.bits_ != m.hash || l.hash.known_bits() != 256)
            return t + ": the saved record loads wrong: " + sf.data();
        mc::transition(2);
    }
    return "";
}
// records that are no meta records, and partially known hashes
static string check_record(const string& t) {
    mc::state(t); mc::trace(); mc::nontrivial(); mc::transition();
    if (t[0] == '#') {
        int n = stoi(t.substr(1));
        string full = sha("x");
        ron::OpMeta m, l;
        m.id = rx::uuid(rdtref::event(64, "A")); m.object = m.id; m.rdt = rx::uuid(rdtref::name("lww"));
        string b(32, 0);
        for (int i = 0; i < n; i++) if (full[i / 8] >> (7 - i % 8) & 1) b[i / 8] |= char(0x80 >> (i % 8));
        m.hash.bits_ = b;
        m.hash.known_bits_ = n;
        rx::Builder sb;
        m.Save(sb);
        rx::Frame sf = sb.Release();
        rx::Cursor c{sf};
        if (!c.Next() || !l.Load(c)) return "the saved record does not load: " + sf.data();
        uint32_t keep = n == 256 ? 256 : n / 6 * 6;
        if (l.hash.known_bits() != keep) return to_string(n) + " bits of a hash load as " + to_string(l.hash.known_bits());
        if (!l.hash.matches(m.hash)) return "the loaded hash does not match";
        return "";
    }
    rx::Cursor c{ron::Slice{t}};
    if (!c.Next()) return "bad case " + t;
    ron::OpMeta l;
    bool want = t.find("good") == string::npos ? false : true;
    (void)want;
    ron::Status ok = l.Load(c);
    rx::Read r = rx::read(t);
    bool good = r.ops[0].ref == rdtref::name("meta") && r.ops[0].a.size() >= 2 && r.ops[0].a[0].t == ref::UUID && r.ops[0].a[1].t == ref::UUID;
    if (!!ok != good) return "Load of " + t + " says " + ok.str();
    return "";
}
int main(int argc, char** argv) {
    mc::Driver d("C25");
    bool deep = mc::thorough();
    d.add({"yarns", [=](Gen& g) {
        string a = "LR012abc5";
        for (int n = 1; n <= (deep ? 7 : 6); n++) mc::words(a.size(), n, [&](const vector<int>& w) {
            // the first creates; back references exist
            if (w[0] > 1) return;
            for (int i = 1; i < n; i++) { char c = a[w[i]]; if (isdigit(c) && c - '0' >= i) return; }
            for (int sc = 0; sc < 3; sc++) for (int f = 0; f < 2; f++) {
                if (n >= 6 && (sc > 1 || f != sc)) continue;
                if (!g.mine()) continue;
                string s;
                for (int i : w) s += a[i];
                g.run(to_string(sc) + " " + to_string(f) + " " + s);
            }
        });
    }, check, "every yarn of up to 6 (thorough 7) events, each creating an object or referring to the tip, older events or another yarn; built and parsed ops; three id schemes"});
    d.add({"records", [=](Gen& g) {
        for (int i = 0; i <= 256; i++) g.add("#" + to_string(i));
        vector<string> refs{":meta", ":prev", ":lww", ":1+A"}, vals{"", " 1+B", " lww", " 'abc'", " =5", " ^1.5"};
        for (auto& r : refs) for (auto& x : vals) for (auto& y : vals) for (auto& z : vals) { if (x.empty() && (!y.empty() || !z.empty())) continue; if (y.empty() && !z.empty()) continue; g.add("@1+A " + r + x + y + z + ";"); }
    }, check_record, "hashes with 0..256 known bits; records of 4 kinds with up to 3 values of every type"});
    d.add({"long", [=](Gen& g) {
        for (int n = 8; n <= (deep ? 200 : 100); n++) for (auto rest : {"0", "1", "0001", "L0", "R0L01", "00000000a", "0c", "05", "0000000000000001"}) for (int sc = 0; sc < 2; sc++) for (int f = 0; f < 2; f++) {
            string s = "LR0000", r = rest;
            while ((int)s.size() < n) s += r[s.size() % r.size()];
            g.add(to_string(sc) + " " + to_string(f) + " " + s);
        }
    }, check, "yarns of 8 to 100 (thorough 200) events of 9 makes"});
    return d.main(argc, argv);
}
