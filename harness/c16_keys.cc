// C16: storage keys: one-to-one, order-preserving, form-tagged.
#include "ronx.hpp"
#include "db/key.hpp"
using namespace std;
using mc::Gen;

static const vector<uint64_t>& words() {
    static vector<uint64_t> v;
    if (v.empty()) {
        set<uint64_t> s{0, 1, 2, ref::M60, ref::M60 - 1, uint64_t(63) << 54, (uint64_t(63) << 54) - 1, 0x123456789abcdefULL & ref::M60, 0xfedcba987654321ULL & ref::M60};
        for (int i = 0; i < 60; i++) { s.insert(uint64_t(1) << i); s.insert(((uint64_t(1) << i) - 1)); s.insert(ref::M60 ^ (uint64_t(1) << i)); }
        v.assign(s.begin(), s.end());
    }
    return v;
}
static const vector<int>& forms() { static vector<int> f; if (f.empty()) for (int i = 0; i < 256; i++) f.push_back(i); return f; }
static string image(const ron::Key& k) { auto b = k.be(); return string((const char*)&b, sizeof b); }
static string want_image(uint64_t v, uint64_t o, int f) {
    // form(8) origin(60) value(60), big endian
    unsigned __int128 x = ((unsigned __int128)f << 120) | ((unsigned __int128)o << 60) | v;
    string s;
    for (int i = 15; i >= 0; i--) s += char((unsigned char)(x >> (8 * i)));
    return s;
}
static string check_key(const string& t) {
    auto& W = words();
    auto f = mc::split(t, ' ');
    uint64_t v = W[atoi(f[0].c_str())], o = W[atoi(f[1].c_str())];
    mc::nontrivial(); mc::state(t);
    for (int form : forms()) {
        mc::transition();
        ron::Uuid id = ron::Uuid::Time(ron::Word{v}, ron::Word{o});
        ron::Key k{id, ron::FORM(form)};
        if (int(k.form()) != form) return "form " + to_string(form) + " reads back as " + to_string(k.form());
        if (k.id() != id) return "id " + id.str() + " reads back as " + k.id().str();
        if (k.id(ron::DERIVED) != id.derived()) return "derived id differs";
        string b = image(k);
        if (b.size() != ron::Key::SIZE) return "key size";
        if (b != want_image(v, o, form)) return "key bytes of " + id.str() + " are not in form-origin-time order: " + mc::hex(b);
        rx::Exact e{b};
        ron::Key back = ron::Key::be(e.slice());
        if (!(back == k) || back != k || back.id() != id || int(back.form()) != form) return "the stored bytes read as another key";
        ron::Uuid fu = ron::form2uuid(ron::FORM(form));
        if (form < 20 && !(ron::Key{id, fu} == k)) return "key by form name differs from key by form code";
    }
    return "";
}
static string check_pair(const string& t) {
    auto& W = words();
    static const vector<int> F{0, 1, 2, 8, 13, 14, 15, 16, 127, 128, 200, 255};
    auto f = mc::split(t, ' ');
    uint64_t v = W[atoi(f[0].c_str())], o = W[atoi(f[1].c_str())], v2 = W[atoi(f[2].c_str())];
    mc::nontrivial(); mc::state(t);
    for (size_t oi = 0; oi < W.size(); oi += 1) {
        uint64_t o2 = W[oi];
        for (int fa : {2, 14}) for (int fb : F) {
            mc::transition();
            ron::Key a{ron::Uuid::Time(ron::Word{v}, ron::Word{o}), ron::FORM(fa)}, b{ron::Uuid::Time(ron::Word{v2}, ron::Word{o2}), ron::FORM(fb)};
            auto ta = make_tuple(fa, o, v), tb = make_tuple(fb, o2, v2);
            if ((a < b) != (ta < tb) || (a > b) != (ta > tb) || (a == b) != (ta == tb) || (a != b) != (ta != tb)) return "comparison of keys " + a.str() + " and " + b.str();
            int c = image(a).compare(image(b));
            if ((c < 0) != (ta < tb) || (c > 0) != (ta > tb)) return "byte order of keys " + a.str() + " and " + b.str();
        }
    }
    if (ron::Key::ZERO > ron::Key{ron::Uuid::Time(ron::Word{v}, ron::Word{o}), ron::FORM(1)}) return "ZERO is not the least";
    if (ron::Key::END < ron::Key{ron::Uuid::Time(ron::Word{v}, ron::Word{o}), ron::FORM(254)}) return "END is not the greatest";
    return "";
}
int main(int argc, char** argv) {
    mc::Driver d("C16");
    bool deep = mc::thorough();
    int n = (int)words().size();
    d.add({"keys", [=](Gen& g) { for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) g.add(to_string(a) + " " + to_string(b)); }, check_key,
        "every time x origin of 188 words (every single bit, its complement, every run of low bits) x all 256 form codes"});
    d.add({"order", [=](Gen& g) { int st = deep ? 1 : 4; for (int a = 0; a < n; a += st) for (int b = 0; b < n; b += st) for (int c = 0; c < n; c += st) g.add(to_string(a) + " " + to_string(b) + " " + to_string(c)); }, check_pair,
        "all pairs of keys over every (thorough; quick: every fourth) word of time and origin on either side x 24 pairs of forms"});
    return d.main(argc, argv);
}
