// C23: Merkle hashes of ops.
#include <botan/sha2_64.h>
#include <cmath>
#include "rdtx.hpp"
#include "ron/hash.hpp"
using namespace std;
using mc::Gen;
using ref::I; using ref::F; using ref::Q; using ref::S;

static vector<ref::U> IDS;
static vector<vector<ref::A>> VALS;
static vector<ron::SHA2> HASHES;
static void prepare() {
    auto e = [](uint64_t v, const char* o) { return rdtref::event(v, o); };
    IDS = {e(64, "A"), e(65, "A"), e(64, "B"), e(uint64_t(1) << 59, "A"), e(64, "A0000001"), rdtref::name("lww"), ref::U{}, e(0, "A")};
    vector<ref::A> atoms = {I(0), I(1), I(-1), I(INT64_MAX), I(INT64_MIN), I(256), F(0.0), F(1.0), F(-1.0), F(0.5), F(1e300), F(-0.0), F(4.9406564584124654e-324),
                            S(""), S("a"), S("b"), S("ab"), S("1"), S("\xD1\x8F"), S("\xF0\x9F\x98\x80"), S("'\\\n"), S("aa"), S("=1"),
                            Q(ref::U{}), Q(e(64, "A")), Q(e(64, "B")), Q(e(65, "A")), Q(rdtref::name("a")), Q(rdtref::name("1e5")), Q(rdtref::name("1"))};
    VALS.push_back({});
    for (auto& a : atoms) VALS.push_back({a});
    for (auto& a : atoms) for (auto& b : atoms) VALS.push_back({a, b});
    vector<ref::A> few = {I(1), S("a"), S(""), F(1.0), Q(rdtref::name("1")), S("ab")};
    for (auto& a : few) for (auto& b : few) for (auto& c : few) VALS.push_back({a, b, c});
    // many values, long strings
    for (size_t n = 4; n <= 40; n++) { vector<ref::A> v; for (size_t i = 0; i < n; i++) v.push_back(atoms[(i * 7 + n) % atoms.size()]); VALS.push_back(v); }
    for (int n : {3, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 70000}) { VALS.push_back({S(string(n, 'x'))}); VALS.push_back({S(string(n, 'x')), S("a")}); if (n > 3) VALS.push_back({I(1), S(string(n / 2, 'x') + "\xD1\x8F")}); }
    HASHES.push_back(ron::SHA2{});
    HASHES.push_back(ron::SHA2{rx::uuid(IDS[0])});
    for (int bit : {0, 7, 128, 255}) { ron::SHA2 h = HASHES[1]; h.bits_[bit / 8] ^= char(0x80 >> (bit % 8)); HASHES.push_back(h); }
}
// the hashed form, from the description: id, hash of the previous op, ref, hash
// of the referenced op, then the values; big endian
static void be(string& s, uint64_t x) { for (int i = 7; i >= 0; i--) s += char(x >> (8 * i)); }
static string want_hash(const ref::Op& o, const string& prev, const string& rf) {
    string s;
    be(s, o.id.v); be(s, o.id.o); s += prev;
    be(s, o.ref.v); be(s, o.ref.o); s += rf;
    for (auto& a : o.a) {
        uint64_t x = 0;
        switch (a.t) {
            case ref::UUID: be(s, a.u.v); be(s, a.u.o); break;
            case ref::INT: be(s, uint64_t(a.i)); be(s, uint64_t(4) << 60); break;
            case ref::FLT: memcpy(&x, &a.f, 8); be(s, x); be(s, uint64_t(12) << 60); break;
            case ref::STR: be(s, uint64_t(a.s.size()) << 32); be(s, uint64_t(8) << 60); s += ref::utf8(a.s); break;
        }
    }
    Botan::SHA_512_256 h;
    h.update((const uint8_t*)s.data(), s.size());
    string r(32, 0);
    h.final((uint8_t*)&r[0]);
    return r;
}
static ref::Op make(int v, int id, int rf) {
    ref::Op o;
    o.id = IDS[id]; o.ref = IDS[rf]; o.a = VALS[v];
    return o;
}
// alternative spellings of the op's text
static vector<string> spellings(const ref::Op& o) {
    vector<string> r;
    for (int k = 0; k < 3; k++) {
        string s = "@" + ref::text(o.id) + (k ? " :" : "\n\t:") + ref::text(o.ref);
        for (auto& a : o.a) {
            s += k == 1 ? "\n\t" : " ";
            if (a.t == ref::STR) {
                s += "'";
                for (auto c : a.s) {
                    char b[16];
                    if ((k == 0 && c < 0x10000) || c == '\n' || c == '\\' || (c == '\'' && k == 1)) { snprintf(b, 16, k == 2 && c == '\\' ? "\\\\" : k == 2 && c == '\n' ? "\\n" : "\\u%04X", c); s += b; }
                    else if (c == '\'') s += "\\'";
                    else ref::utf8(s, c);
                }
                s += "'";
            } else if (a.t == ref::INT) {
                if (k == 1 && a.i >= 0) s += "=+" + to_string(a.i);
                else s += "= " + to_string(a.i);
            } else if (a.t == ref::FLT) {
                char b[64];
                snprintf(b, 64, k == 1 ? "^%.17e" : "^ %.17g", a.f);
                string f = b;
                if (f.find_first_of(".e") == string::npos) f += ".0";
                if (f.size() > 24 || k == 1) { snprintf(b, 64, "^%.16e", a.f); f = b; }
                s += f;
            } else s += (k == 1 ? ">" : "> ") + ref::text(a.u);
        }
        r.push_back(s + (k == 0 ? ";" : k == 1 ? " ," : "\n!\n"));
    }
    return r;
}
static string same(const string& want, const ron::SHA2& got, const string& what) {
    mc::transition();
    if (got.known_bits() != 256) return "the hash of " + what + " is not all known";
    if (got.bits_ != want) return "the hash of " + what + " is " + mc::hex(got.bits_) + ", not " + mc::hex(want);
    return "";
}
// all representations have the one hash, and it is the specified one
static string check_rep(const string& t) {
    auto w = mc::split(t, ' ');
    ref::Op o = make(stoi(w[0]), stoi(w[1]), stoi(w[2]));
    const ron::SHA2 &p = HASHES[stoi(w[3])], &r = HASHES[stoi(w[4])];
    string want = want_hash(o, p.bits_, r.bits_), e;
    mc::state(mc::hex(want)); mc::trace();
    if (!o.a.empty()) mc::nontrivial();
    ron::Op op = rx::make(o);
    if (!(e = same(want, ron::SHA2::OpMerkleHash(op, p, r), "an op " + ref::show(o))).empty()) return e;
    auto frame = [&](const string& text, size_t skip, const string& what) -> string {
        rx::Cursor c{ron::Slice{text}};
        for (size_t i = 0; i <= skip; i++) if (!c.Next()) return "cannot parse " + text;
        string e = same(want, ron::SHA2::OpMerkleHash(c, p, r), what + " " + text);
        if (!e.empty()) return e;
        ron::SHA2 h;
        ron::hash_op<rx::Frame>(c, h, p, r);
        if (!(e = same(want, h, what + " (hash_op) " + text)).empty()) return e;
        ron::Op copy = ron::Op::Amend(c.id(), c.ref(), c);
        if (!(e = same(want, ron::SHA2::OpMerkleHash(copy, p, r), what + " copied from " + text)).empty()) return e;
        rx::Builder b;
        b.AppendOp(c);
        rx::Frame f = b.Release();
        rx::Cursor d{f};
        if (!d.Next()) return "cannot parse " + f.data();
        return same(want, ron::SHA2::OpMerkleHash(d, p, r), what + " rewritten as " + f.data());
    };
    rx::Builder b;
    b.AppendOp(op);
    rx::Frame f = b.Release();
    if (!(e = frame(f.data(), 0, "a built frame")).empty()) return e;
    for (auto& s : spellings(o)) if (!(e = frame(s, 0, "a spelling")).empty()) return e;
    // inside of a span, and with the default ids
    bool chr = o.a.size() == 1 && o.a[0].t == ref::STR && o.a[0].s.size() == 1;
    if (o.ref.v + 1 == o.id.v && o.ref.o == o.id.o) {
        rx::Builder sb;
        ref::Op q = o;
        q.id = o.ref; q.ref = IDS[5];
        sb.AppendOp(rx::make(q)); sb.AppendOp(rx::make(o));
        q.id = o.id; q.id.v++; q.ref = o.id;
        sb.AppendOp(rx::make(q));
        f = sb.Release();
        if (!(e = frame(f.data(), 1, "a run of ops")).empty()) return e;
        if (chr) {
            string s = "@" + ref::text(o.ref) + " :lww ('x" + (o.a[0].s[0] == '\'' || o.a[0].s[0] < 32 || o.a[0].s[0] == '\\' ? "\\u00" + string(o.a[0].s[0] < 16 ? "0" : "") + mc::hex(string(1, char(o.a[0].s[0]))) : ref::utf8(o.a[0].s)) + "y');";
            if (!(e = frame(s, 1, "a char span")).empty()) return e;
        }
    }
    return "";
}
// no two contents have the same hash, among all that differ in one part
static string check_diff(const string& t) {
    auto w = mc::split(t, ' ');
    int id = stoi(w[0]), rf = stoi(w[1]), p = stoi(w[2]), r = stoi(w[3]);
    map<string, int> seen;
    mc::nontrivial(); mc::trace(); mc::state(t);
    for (size_t v = 0; v < VALS.size(); v++) {
        ron::Op op = rx::make(make(v, id, rf));
        string h = ron::SHA2::OpMerkleHash(op, HASHES[p], HASHES[r]).bits_;
        mc::transition();
        auto i = seen.emplace(h, v);
        if (!i.second && !(VALS[i.first->second] == VALS[v])) return "the same hash for " + ref::show(make(v, id, rf)) + " and " + ref::show(make(i.first->second, id, rf));
    }
    return "";
}
static string check_spec(const string& t) {
    // one content per id, ref and hash: all hashes differ
    int v = stoi(t);
    map<string, string> seen;
    mc::nontrivial(); mc::trace(); mc::state("s" + t);
    for (size_t id = 0; id < IDS.size(); id++) for (size_t rf = 0; rf < IDS.size(); rf++) for (size_t p = 0; p < HASHES.size(); p++) for (size_t r = 0; r < HASHES.size(); r++) {
        ron::Op op = rx::make(make(v, id, rf));
        string h = ron::SHA2::OpMerkleHash(op, HASHES[p], HASHES[r]).bits_;
        mc::transition();
        string me = ref::show(make(v, id, rf)) + " after " + to_string(p) + " on " + to_string(r);
        auto i = seen.emplace(h, me);
        if (!i.second) return "the same hash for " + me + " and " + i.first->second;
    }
    return "";
}
// the other hashes of the tree: of an id, of a pair of hashes
static string check_pairs(const string& t) {
    size_t i = stoi(t) / 6, j = stoi(t) % 6;
    mc::nontrivial(); mc::trace(); mc::state("p" + t);
    auto sha = [](const string& s) { Botan::SHA_512_256 h; h.update((const uint8_t*)s.data(), s.size()); string r(32, 0); h.final((uint8_t*)&r[0]); return r; };
    string e = same(sha(HASHES[i].bits_ + HASHES[j].bits_), ron::SHA2::MerklePairHash(HASHES[i], HASHES[j]), "a pair");
    if (!e.empty()) return e;
    for (auto& u : IDS) {
        string s;
        be(s, u.v); be(s, u.o);
        if (!(e = same(sha(s), ron::SHA2{rx::uuid(u)}, "an id " + ref::text(u))).empty()) return e;
    }
    return "";
}
int main(int argc, char** argv) {
    prepare();
    mc::Driver d("C23");
    bool deep = mc::thorough();
    d.add({"representations", [=](Gen& g) {
        for (size_t v = 0; v < VALS.size(); v++) for (size_t id = 0; id < IDS.size(); id++) for (size_t rf = 0; rf < IDS.size(); rf++) {
            if (!deep && v > 60 && (id > 2 || rf > 2)) continue;
            for (int h = 0; h < (deep ? 36 : 4); h++) g.add(to_string(v) + " " + to_string(id) + " " + to_string(rf) + " " + to_string(deep ? h / 6 : h / 2) + " " + to_string(deep ? h % 6 : h % 2));
        }
    }, check_rep, "all ops of 8 ids, 8 refs, value tuples (30 values alone and in pairs, 6 in triples, 4 to 40 values, strings of up to 70000 characters) and pairs of parent hashes; each built, parsed, in 3 other spellings, copied, rewritten, in runs and spans"});
    d.add({"values", [=](Gen& g) {
        for (size_t id = 0; id < IDS.size(); id++) for (size_t rf = 0; rf < IDS.size(); rf++) for (int p = 0; p < 2; p++) for (int r = 0; r < 2; r++) g.add(to_string(id) + " " + to_string(rf) + " " + to_string(p) + " " + to_string(r));
    }, check_diff, "all pairs of value tuples on each id and ref"});
    d.add({"specs", [=](Gen& g) { for (size_t v = 0; v < VALS.size(); v++) g.add(to_string(v)); }, check_spec, "all pairs of ids, refs and parent hashes for each value tuple"});
    d.add({"pairs", [=](Gen& g) { for (int i = 0; i < 36; i++) g.add(to_string(i)); }, check_pairs, "hashes of ids and of pairs of hashes"});
    return d.main(argc, argv);
}
